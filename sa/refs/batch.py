"""Parts of a batch."""


def sample(x):
    if isinstance(x, (tuple, list)):
        return tuple(sample(v) for v in x)
    return x[1:2]


def channel(x):
    if isinstance(x, (tuple, list)):
        return tuple(channel(v) for v in x)
    return x[..., 1:2, :]
