"""Reference programs for augmentations, waveform sampling and streaming modules (interpreted, never executed)."""
import torch
from ml4gw import gw


# -- augmentations ---------------------------------------------------------------------------------

def invert(x, prob):
    """Every time series changes its sign as a whole, independently, with probability prob."""
    u = torch.rand(x.shape[:-1])
    return torch.where((u < prob)[..., None], -x, x)


def reverse(x, prob):
    u = torch.rand(x.shape[:-1])
    return torch.where((u < prob)[..., None], torch.flip(x, (-1,)), x)


# -- waveforms ---------------------------------------------------------------------------------------

def sample(tables, parameters, n):
    """The same rows of every polarization and of the parameters: n random ones, or all of them in order."""
    rows = None
    for name in tables:
        if rows is None:
            rows = tables[name].shape[0]
        elif rows != tables[name].shape[0]:
            raise ValueError("polarizations of different size")
    if parameters is not None and parameters.shape[0] != rows:
        raise ValueError("parameters of different size")
    if n > rows:
        raise ValueError("too many")
    pick = torch.arange(rows) if n == -1 else torch.randint(rows, size=(n,))
    out = {name: tables[name][pick] for name in tables}
    return out if parameters is None else (out, parameters[pick])


def project(ifos, rate, dec, psi, phi, tables):
    tensors, vertices = gw.get_ifo_geometry(*ifos)
    return gw.compute_observed_strain(dec, psi, phi, tensors, vertices, rate, **tables)


# -- streaming -----------------------------------------------------------------------------------------

def snapshots(past, new, size, stride, many):
    """All windows of the stream that end in the new samples, and the tail the next call needs."""
    stream = torch.cat([past, new], -1)
    k = (stream.shape[-1] - size) // stride + 1 if many else 1
    at = torch.arange(k)[:, None] * stride + torch.arange(size if many else stream.shape[-1])[None]
    windows = stream[:, at].permute(1, 0, 2)
    return windows, stream[:, stream.shape[-1] - (size - stride):]


def snapshotter(channels, size, stride, batch, split, new, past):
    if stride >= size:
        raise ValueError("stride")
    if split is not None and sum(split) != channels:
        raise ValueError("channels")
    if past is None:
        past = torch.zeros(channels, size - stride)
    windows, tail = snapshots(past, new, size, stride, batch > 1)
    out = []
    if split is None:
        out.append(windows)
    else:
        if windows.shape[1] != channels:
            raise ValueError("channels")
        first = 0
        for n in split:
            out.append(windows[:, first:first + n])
            first = first + n
    return tuple(out) + (tail,)


def average(update, batch, num, channels, offset, x, state):
    """Every sample is the mean of the num overlapping windows it lies in: what came before, plus the new ones."""
    width = num * update
    last = x.shape[-1] - (offset if offset is not None else 0)
    x = x[:, :, last - width:last] / num
    if state is None:
        state = torch.zeros(channels, (num - 1) * update)
    total = torch.cat([state, torch.zeros(channels, batch * update)], -1)
    for i in range(batch):
        total = total + torch.nn.functional.pad(x[i], (i * update, (batch - 1 - i) * update))
    return total[:, :batch * update], total[:, batch * update:]
