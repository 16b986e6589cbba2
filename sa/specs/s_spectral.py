"""Welch spectral estimates, inverse-spectrum truncation, whitening."""
import re
from ..spec import *  # noqa
from ..algebra import Poly, idiv, mod, trunc as ptrunc

ONEP = Poly.const(1)


def lead(s, name, extra=0):
    """Index symbols of a tensor's leading axes."""
    t = s.t(name)
    return t


def nbins(n):
    return idiv(n, Poly.const(2)) + 1


def onesided(s, k, n, f):
    """Bin k of a one-sided spectrum: f, doubled where a bin stands for a positive and a negative frequency."""
    hi = idiv(n - 1, Poly.const(2))
    last = f(nbins(n) - 1)
    return where(s.cge(k - 1), where(s.cge(k - hi - 1), last, 2 * f(k)), f(Poly.const(0)))


def med(s, n, f):
    """Median over [0, n) divided by the Welch-median bias."""
    cnt = idiv(n - 1, Poly.const(2))
    bias = 1 + s.sum(cnt, lambda k: 1 / (2 * (1 + s.num(k)) + 1) - 1 / (2 * (1 + s.num(k))))
    return s.quantile(n, f, Poly.const(Fr(1, 2))) / bias


@spec("P13", r"^median$")
def median(s, m):
    x = s.t("x")
    s.require(s.returns(), "call returns", str(s.r.exc))
    if s.returns():
        B, C, F, W = [d.p for d in x.shape]
        s.expect(s.r.value, [B, C, F], lambda b, c, f: med(s, W, lambda w: x(b, c, f, w)), "median")


def segments(s):
    return idiv(s.P("T") - s.N("nperseg"), s.P("nstride")) + 1


@spec("P13", r"^spectral_density\[x=(\d)D,(mean|median),(\w+),(\w+)\]$")
def welch(s, m):
    nd, avg = int(m.group(1)), m.group(2)
    x, w = s.t("x"), s.t("window")
    T, n, st = s.P("T"), s.N("nperseg"), s.P("nstride")
    if not s.returns():
        return s.require(s.r.exc is not None and s.r.exc.name == "ValueError", "returns", "raises %s" % s.r.exc)
    W = segments(s)

    def f(*idx):
        ld, k = idx[:-1], idx[-1]

        def power(j):
            seg = lambda i: x(*(ld + (st * j + i,)))
            mean = s.sum(n, seg) / s.num(n)
            X = lambda k: s.rfft(n, lambda i: (seg(i) - mean) * w(i), k)
            return onesided(s, k, n, lambda k: absf2(X(k)) * s.sym("scale"))
        return s.sum(W, power) / s.num(W) if avg == "mean" else med(s, W, power)
    s.expect(s.r.value, [d.p for d in x.shape[:-1]] + [nbins(n)], f, "spectral density")


@spec("P13", r"^fast_spectral_density\[x=(\d)D,y=(None|\d),(mean|median),(\w+),(\w+)\]$")
def fast(s, m):
    nd, avg = int(m.group(1)), m.group(3)
    ynd = None if m.group(2) == "None" else int(m.group(2))
    x, w = s.t("x"), s.t("window")
    T, n, st = s.P("T"), s.N("nperseg"), s.P("nstride")
    if not s.returns():
        return s.require(s.r.exc is not None and s.r.exc.name == "ValueError", "returns", "raises %s" % s.r.exc)
    W = segments(s)

    def f(*idx):
        ld, k = idx[:-1], idx[-1]

        def spec(t, li):
            at = lambda i: t(*(li + (i,)))
            mean = s.sum(T, at) / s.num(T)
            return lambda j, k: stft(s, n, st, T, lambda i: at(i) - mean, w, k, j)
        X = spec(x, ld)
        if ynd is None:
            power = lambda j: onesided(s, k, n, lambda k: absf2(X(j, k)) * s.sym("scale"))
        else:
            y = s.t("y")
            yl = ld if ynd == nd else ld[:1] if nd == 3 else ()
            Y = spec(y, yl)
            power = lambda j: onesided(s, k, n, lambda k: X(j, k).conj * Y(j, k) * s.sym("scale"))
        if avg == "mean":
            return s.sum(W, power) / s.num(W)
        if ynd is None:
            return med(s, W, power)
        return med(s, W, lambda j: power(j).re) + J * med(s, W, lambda j: power(j).im)
    s.expect(s.r.value, [d.p for d in x.shape[:-1]] + [nbins(n)], f, "spectral density")


def stft(s, n, st, T, f, w, k, j):
    """Windowed DFT bin k of the j-th (uncentred) segment."""
    from .. import sem as M
    from ..semops import stable
    attr = (n, st, False, False, True, True)
    S = s.S
    r = M.ZERO
    for t, wt in S.points(T):
        kk = ("stft", stable(attr), S.num(k).key(), S.num(j).key(), S.num(t).key())
        v = ev(f(t))
        for t2, w2 in S.points(n):
            k2 = kk + (S.num(t2).key(),)
            r = M.vadd(r, M.vmul(M.vmul(v, ev(w(t2))), M.Val(F.h(*k2), F.h("im", *k2))))
    return E(M.summed(r))


# -- inverse spectrum truncation and whitening -----------------------------------------------

def between(s, i, lo, hi):
    """lo <= i < hi, with hi None for no upper end."""
    u = s.cge(i - lo)
    return u if hi is None else both(u, s.cge(hi - 1 - i))


def truncated(s, at, num, hp, lp, pad, win, wlen):
    """Bin k of a PSD (at(k), num bins) whose inverse square root is limited to the taper win of length wlen in time."""
    N = 2 * (num - 1)
    sr = s.P("sample_rate")

    def asd(k):
        v = 1 / sqrt(at(k))
        if hp is not None:
            v = v * (1 - s.cge(ptrunc(hp * N * sr ** -1) - 1 - k))
        if lp is not None:
            v = v * (1 - s.cge(k - ptrunc(lp * N * sr ** -1)))
        par = s.I.same(mod(num, Poly.const(2)))
        if par is None:
            raise KeyError("parity of the number of bins")
        if par is False:
            v = v * (1 - s.ceq(k - (num - 1)))
        return v

    def q(t):
        v = s.irfft(num, asd, t, N)
        v = v * where(s.cge(pad - 1 - t), win(wlen - pad + t), 1)
        v = v * where(s.cge(t - (N - pad)), win(t - (N - pad)), 1)
        if not s.S.ge0(2 * pad - N):
            v = v * (1 - both(s.cge(t - pad), s.cge(N - pad - 1 - t)))
        return v
    return lambda k: 1 / (absf2(s.rfft(N, q, k)) * 2)


def absf2(X):
    return X.re * X.re + X.im * X.im


def taper(s, tensor):
    if tensor:
        w = s.t("window")
        L = w.shape[0].p
        return w, L, idiv(L, Poly.const(2))
    pad = ptrunc(s.P("fduration") * s.P("sample_rate") / 2)
    return s.window("hann_window", 2 * pad, True), 2 * pad, pad


@spec("P14", r"^truncate_inverse_power_spectrum\[psd=(\d)D,hp=(\w+),lp=(\w+),(\w+)(,window)?\]$")
def truncate(s, m):
    psd = s.t("psd")
    win, L, pad = taper(s, m.group(5))
    num = s.N("F")
    hp = s.P("highpass") if m.group(2) == "1" else None
    lp = s.P("lowpass") if m.group(3) == "1" else None
    if not s.returns():
        return s.require(False, "returns", "raises %s" % s.r.exc)
    s.expect(s.r.value, [d.p for d in psd.shape],
             lambda *i: truncated(s, lambda k: psd(*(i[:-1] + (k,))), num, hp, lp, pad, win, L)(i[-1]), "truncated PSD")


@spec("P14", r"^normalize_by_psd\[psd=(\d)D,crop=(\w+)\]$")
def normalize(s, m):
    pn, crop = int(m.group(1)), m.group(2) == "True"
    X, psd = s.t("X"), s.t("psd")
    B, C, T = [d.p for d in X.shape]
    if not s.returns():
        return s.require(False, "returns", "raises %s" % s.r.exc)
    K = nbins(T)
    pad = s.P("pad")

    def white(b, c, t):
        mean = s.sum(T, lambda i: X(b, c, i)) / s.num(T)
        sp = lambda k: s.rfft(T, lambda i: X(b, c, i) - mean, k) * psd(*((b, c)[3 - pn:] + (k,))) ** Fr(-1, 2)
        return s.irfft(K, sp, t, T) / sqrt(s.sym("sample_rate"))
    if crop:
        s.expect(s.r.value, [B, C, T - 2 * pad], lambda b, c, t: white(b, c, t + pad), "whitened")
    else:
        s.expect(s.r.value, [B, C, T], white, "whitened")


@spec("P14", r"^whiten\[psd=")
def whiten(s, m):
    X, psd = s.t("X"), s.t("psd")
    pn, crop = psd.ndim, "crop=True" in s.e.name
    B, C, T = [d.p for d in X.shape]
    K = nbins(T)
    win, L, pad = taper(s, False)
    if not s.returns():
        return s.require(s.r.exc.name == "ValueError" and s.S.ge0(2 * pad - T), "returns", "raises %s" % s.r.exc)
    s.require(s.S.ge0(T - 2 * pad - 1), "too short a series is rejected")
    hp = s.P("highpass") if "f=1" in s.e.name else None
    lp = s.P("lowpass") if re.search("f=.1", s.e.name) else None
    F = psd.shape[-1].p

    def white(b, c, t):
        raw = lambda k: psd(*((b, c)[3 - pn:] + (k,)))
        if s.I.same(F - K) is True:
            at = raw
        else:
            at = lambda k: s.interp(F, raw, k, K)
        tr = truncated(s, at, K, hp, lp, pad, win, L)
        mean = s.sum(T, lambda i: X(b, c, i)) / s.num(T)
        sp = lambda k: s.rfft(T, lambda i: X(b, c, i) - mean, k) * tr(k) ** Fr(-1, 2)
        return s.irfft(K, sp, t, T) / sqrt(s.sym("sample_rate"))
    if crop:
        s.expect(s.r.value, [B, C, T - 2 * pad], lambda b, c, t: white(b, c, t + pad), "whitened")
    else:
        s.expect(s.r.value, [B, C, T], white, "whitened")
