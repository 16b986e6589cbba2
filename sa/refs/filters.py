"""Reference programs for the remaining transforms (interpreted by the analysis, never executed)."""
import torch
from scipy.signal import iirfilter
from torchaudio.functional import filtfilt
from torchaudio.transforms import Spectrogram
from ml4gw.constants import MTSUN_SI, PI


def heterodyne(sample_rate, kernel_length, chirp_mass, return_type, X):
    """Fourier transform times exp(i 3/128 (pi Mc f)^(-5/3)) for each reference chirp mass, without DC."""
    if return_type not in ("time", "freq", "both"):
        raise ValueError
    n = int(kernel_length * sample_rate)
    f = torch.fft.rfftfreq(n, 1 / sample_rate)
    v = torch.pi * MTSUN_SI * chirp_mass[:, None] * f
    phase = torch.exp(3j / 128 * v ** (-5 / 3))
    spec = torch.fft.rfft(X, dim=-1)[:, :, None] * phase / sample_rate
    keep = torch.arange(f.shape[-1]) > 0
    spec = torch.where(keep, spec, torch.zeros_like(spec))
    series = torch.fft.irfft(spec, n=X.shape[-1], dim=-1) * sample_rate
    if return_type == "time":
        return series
    if return_type == "freq":
        return spec
    return series, spec


def decimate(sample_rate, schedule, split, X):
    """Every (sample_rate // rate)-th sample of each scheduled segment, apart or end to end."""
    if not torch.all(schedule[:, 1] > schedule[:, 0]):
        raise ValueError
    if torch.any(sample_rate % schedule[:, 2].long() != 0):
        raise ValueError
    if not split and torch.any(schedule[1:, 0] < schedule[:-1, 1]):
        raise ValueError
    first, last = schedule[0], schedule[-1]
    if X.shape[-1] != int((last[1] - first[0]) * sample_rate):
        raise ValueError
    parts = []
    for row in schedule:
        a, b = int((row[0] - first[0]) * sample_rate), int((row[1] - first[0]) * sample_rate)
        idx = torch.arange(a, b, int(sample_rate // row[2]))
        parts.append(X[..., idx])
    return parts if split else torch.cat(parts, dim=-1)


def iir(order, Wn, rs, rp, btype, analog, ftype, fs, x):
    b, a = iirfilter(order, Wn, rs=rs, rp=rp, btype=btype, analog=analog, ftype=ftype, output="ba", fs=fs)
    return filtfilt(x, torch.tensor(a), torch.tensor(b), clamp=False)


def pearson(max_shift, x, y):
    """Correlation coefficient of y with each of the 2 max_shift + 1 zero-padded shifts of x."""
    if x.ndim > 3 or y.ndim > x.ndim:
        raise ValueError
    for d in range(1, y.ndim + 1):
        if x.shape[-d] != y.shape[-d]:
            raise ValueError
    n = x.shape[-1]
    padded = torch.nn.functional.pad(x, (max_shift, max_shift))
    dy = y - y.mean(-1, keepdim=True)
    # shift s (moved to the front) holds samples s - max_shift, ..., s - max_shift + n - 1 of x
    w = padded.unfold(-1, n, 1).movedim(-2, 0)
    dw = w - w.mean(-1, keepdim=True)
    return (dw * dy).sum(-1) / ((dw ** 2).sum(-1) * (dy ** 2).sum(-1)) ** 0.5


def tophat(sample_rate, integration_length, x):
    """Mean of the last sample_rate * integration_length + 1 samples, zeros before the start."""
    w = int(sample_rate * integration_length) + 1
    n = x.shape[-1]
    padded = torch.nn.functional.pad(x, (w - 1, 0))
    return padded.unfold(-1, w, 1).mean(-1)


def leaky(threshold, decay, lower_bound, mode, x):
    if mode not in ("count", "score"):
        raise ValueError
    gain = torch.ones_like(x) if mode == "count" else x
    total = torch.cumsum(torch.where(x >= threshold, gain, -decay), dim=-1)
    low = torch.cummin(total - lower_bound, dim=-1)[0]
    return total - torch.minimum(low, torch.zeros_like(low))


def multiresolution(kernel_length, sample_rate, n_fft, hop_length, normalized, X):
    """Largest value, over the resolutions, of the cell that covers each cell of the finest grid."""
    if normalized is not None and not all(normalized):
        raise ValueError
    lists = [v for v in (n_fft, hop_length, normalized) if v is not None]
    m = max([len(v) for v in lists])
    for v in lists:
        if len(v) != m and len(v) != 1:
            raise ValueError
    if X.shape[-1] != kernel_length * sample_rate:
        raise ValueError
    grids = []
    for k in range(m):
        n = n_fft[k if len(n_fft) > 1 else 0]
        h = None if hop_length is None else hop_length[k if len(hop_length) > 1 else 0]
        if h is None:
            grids.append(Spectrogram(n_fft=n, normalized=True)(X))
        else:
            grids.append(Spectrogram(n_fft=n, hop_length=h, normalized=True)(X))
    nf = max([g.shape[-2] for g in grids])
    nt = max([g.shape[-1] for g in grids])
    rows = []
    for g in grids:
        fi = torch.tensor([int(i * g.shape[-2] / nf) for i in range(nf)])
        ti = torch.tensor([int(i * g.shape[-1] / nt) for i in range(nt)])
        rows.append(g[..., fi, :][..., ti])
    return torch.stack(rows).max(dim=0)[0]


def no_schedule():
    raise ValueError("not rows of start, end and rate")
