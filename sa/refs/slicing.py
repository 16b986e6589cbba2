"""Which inputs the window functions accept (interpreted, never executed)."""


def slices(x, idx):
    """One start per window; per window and channel for two-dimensional data; per batch element for batched data."""
    if x.ndim == 1 and idx.ndim == 1:
        return True
    if x.ndim == 2 and idx.ndim == 1:
        return True
    if x.ndim == 2 and idx.ndim == 2 and idx.shape[1] == x.shape[0]:
        return True
    if x.ndim == 3 and idx.ndim == 1 and idx.shape[0] == x.shape[0]:
        return True
    raise ValueError("no such windows")


def samples(x, size, n, offset):
    """Enough data, a known number of windows, and starts between which the required overlap with the center holds."""
    if x.shape[-1] < size or x.ndim > 3:
        raise ValueError("data")
    if x.ndim < 3 and n is None:
        raise ValueError("number")
    if x.ndim == 3 and n is not None:
        if n != x.shape[0]:
            raise ValueError("number")
    if x.ndim > 1 and offset is not None:
        center = x.shape[-1] // 2
        first = center - offset - size
        if offset < 0 and center + offset <= first:
            raise ValueError("offset")
        if first < 0:
            raise ValueError("offset")
    return True
