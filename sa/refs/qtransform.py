"""Reference programs for the constant-Q transform (interpreted by the analysis, never executed)."""
import math
import torch
import torch.nn.functional as F
from ml4gw.transforms.spline_interpolation import SplineInterpolate1D


def bandwidth(q):
    return q / 11 ** 0.5


def step(mismatch):
    return 2 * (mismatch / 3) ** 0.5


def num_tiles(q, f, duration, mismatch):
    return int(2 ** torch.ceil(torch.log2(2 * torch.pi * f * duration / q / torch.tensor(step(mismatch)))))


def half_width(q, f, duration):
    return int(f / bandwidth(q) * duration)


def bisquare(q, f, duration, sample_rate, mismatch):
    """Connes window of one tile, on bins -h .. h around the tile frequency."""
    h = half_width(q, f, duration)
    x = torch.arange(-h, h + 1) / duration * bandwidth(q) / f
    gain = num_tiles(q, f, duration, mismatch) / (duration * sample_rate) * (315 * bandwidth(q) / (128 * f)) ** 0.5
    return (1 - x * x) ** 2 * gain


def bins(q, f, duration, sample_rate):
    h = half_width(q, f, duration)
    k = torch.round(torch.arange(-h, h + 1) + 1 + f * duration).type(torch.long)
    return k.clamp(0, int(duration * sample_rate) // 2)


def normalise(e, norm):
    if norm == "median":
        return e / torch.quantile(e, q=0.5, dim=-1, keepdim=True)
    if norm == "mean":
        return e / e.mean(dim=-1, keepdim=True)
    if norm is None:
        return e
    raise ValueError


def tile(q, f, duration, sample_rate, mismatch, X, norm):
    """Energy of the series with spectrum X in one tile, on the tile's own time grid."""
    if X.ndim > 3:
        raise ValueError
    if X.ndim == 1:
        X = X[None, None]
    if X.ndim == 2:
        X = X[None]
    w = X[..., bins(q, f, duration, sample_rate)] * bisquare(q, f, duration, sample_rate, mismatch)
    extra = num_tiles(q, f, duration, mismatch) - (2 * half_width(q, f, duration) + 1)
    w = F.pad(w, (int((extra - 1) / 2), int((extra + 1) / 2)))
    t = torch.fft.ifft(torch.fft.ifftshift(w, dim=-1))
    return normalise(t.real ** 2 + t.imag ** 2, norm)


def frequency_range(q, duration, sample_rate, frange):
    lo, hi = frange
    if lo <= 0:
        lo = 50 * q / (2 * torch.pi * duration)
    if math.isinf(hi):
        hi = sample_rate / 2 / (1 + 1 / bandwidth(q))
    return lo, hi


def frequencies(q, duration, mismatch, lo, hi):
    total = math.log(hi / lo) * (2 + q ** 2) ** 0.5 / 2
    n = int(max(1, math.ceil(total / step(mismatch))))
    base = math.exp(2 / (2 + q ** 2) ** 0.5 * (total / n))
    f = torch.Tensor([base ** (i + 0.5) for i in range(n)])
    return torch.unique(lo * f.double() // (1 / duration) * (1 / duration))


def tiles(q, duration, sample_rate, mismatch, frange, X, norm):
    X = torch.fft.rfft(X) / X.shape[-1]
    X = torch.cat([X[..., :1], 2 * X[..., 1:]], dim=-1)
    lo, hi = frequency_range(q, duration, sample_rate, frange)
    return [tile(q, f, duration, sample_rate, mismatch, X, norm) for f in frequencies(q, duration, mismatch, lo, hi)]


def resample(ts, shape, method, duration, fr):
    nf, nt = shape
    if method == "spline":
        t_out = torch.arange(0, duration, duration / nt)
        rows = [SplineInterpolate1D(kx=3, x_in=torch.arange(0, duration, duration / t.shape[-1]), x_out=t_out)(t[:, :, None])[:, :, 0] for t in ts]
        f_in, lo, hi = fr
        f_out = torch.logspace(math.log10(lo), math.log10(hi), nf)
        y = torch.stack(rows, dim=-1)
        return SplineInterpolate1D(kx=3, x_in=f_in, x_out=f_out)(y).transpose(-1, -2)
    rows = [F.interpolate(t[None], (t.shape[-2], nt), mode=method)[0] for t in ts]
    return F.interpolate(torch.stack(rows, dim=-2), (nf, nt), mode=method)


def check(q, duration, sample_rate, method):
    if q >= torch.pi * duration * sample_rate / 50 - 11 ** 0.5:
        raise ValueError
    if method not in ("bilinear", "bicubic", "spline"):
        raise ValueError


def q_transform(q, duration, sample_rate, mismatch, frange, shape, method, X, norm):
    check(q, duration, sample_rate, method)
    lo, hi = frequency_range(q, duration, sample_rate, frange)
    fr = (frequencies(q, duration, mismatch, lo, hi), lo, hi)
    y = resample(tiles(q, duration, sample_rate, mismatch, frange, X, norm), shape, method, duration, fr)
    return y[0, 0] if X.ndim == 1 else y[0] if X.ndim == 2 else y


def select(ts, freqs, rng):
    if rng is None:
        return ts
    a = min(torch.argwhere(freqs > rng[0]))
    b = min(torch.argwhere(freqs > rng[1]))
    return ts[a:b]


def max_energy(ts, freqs, rng, dimension):
    if dimension not in ("both", "neither", "channel", "batch"):
        raise ValueError
    ts = select(ts, freqs, rng)
    if dimension == "both":
        return max([t.max() for t in ts])
    m = torch.stack([t.amax(dim=-1) for t in ts], dim=-1).amax(dim=-1)
    if dimension == "neither":
        return m
    return m.amax(dim=-2) if dimension == "channel" else m.amax(dim=-1)


def q_planes(qrange, mismatch):
    total = math.log(qrange[1] / qrange[0]) / 2 ** 0.5
    n = int(max(1, math.ceil(total / step(mismatch))))
    return [qrange[0] * math.exp(2 ** 0.5 * (total / n) * (i + 0.5)) for i in range(n)]


def q_scan(qrange, duration, sample_rate, mismatch, frange, shape, method, X, rng, norm):
    """Q transform of the plane with the loudest tile anywhere in the batch."""
    top = torch.pi * duration * sample_rate / 50 - 11 ** 0.5
    qs = [q for q in q_planes(qrange, mismatch) if q < top]
    peaks, maps = [], []
    for q in qs:
        lo, hi = frequency_range(q, duration, sample_rate, frange)
        ts = tiles(q, duration, sample_rate, mismatch, frange, X, norm)
        peaks.append(max_energy(ts, frequencies(q, duration, mismatch, lo, hi), rng, "both"))
        maps.append(q_transform(q, duration, sample_rate, mismatch, frange, shape, method, X, norm))
    return maps[torch.argmax(torch.Tensor(peaks))]
