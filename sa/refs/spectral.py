"""Which inputs the spectral density estimators accept (interpreted, never executed)."""


def accepts(x, y, nperseg):
    """The shapes of x and y form a valid pair: equal, or y lacks the channel axis of x."""
    if x.shape[-1] < nperseg or x.ndim > 3:
        raise ValueError("too short, or too many axes")
    if y is None:
        return True
    same = x.ndim == y.ndim
    if not same and (x.ndim == 1 or y.ndim != x.ndim - 1):
        raise ValueError("axes")
    if same:
        for i in range(x.ndim):
            if x.shape[i] != y.shape[i]:
                raise ValueError("sizes")
        return True
    if x.shape[-1] != y.shape[-1]:
        raise ValueError("times")
    if x.ndim == 3 and x.shape[0] != y.shape[0]:
        raise ValueError("batches")
    return True
