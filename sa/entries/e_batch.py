"""Paired entry points: batch elements and channels are processed independently (P05)."""
from .e_ref import pair

T = "ml4gw.transforms."
N = "ml4gw.nn."
G = "ml4gw.gw."
W = "ml4gw.waveforms."


def alone(name, spec, what="sample", raises=False):
    """spec(c) -> (function of tensors, tensors, which of them are batched)."""
    @pair("P05:%s[%s]" % (name, what), "P05")
    def entry(c):
        if raises:
            r = c.attempt(spec, c)
            if r[0] == "raises":
                return c.pair(lambda: "refused", lambda: "refused")     # bad arguments
            f, xs, batched = r[1]
        else:
            f, xs, batched = spec(c)
        part = [c.ref("batch." + what, x) if b else x for x, b in zip(xs, batched)]
        if raises and any(c.attempt(f, *a)[0] == "raises" for a in (xs, part)):
            return c.pair(lambda: "refused", lambda: "refused")     # one bad sample refuses a batch
        return c.pair(lambda: c.ref("batch." + what, f(*xs)), lambda: f(*part))


def _B(c):
    return c.sym("B", lo=2)


def _spectral():
    for hp in (None, "highpass"):
        for per in (True, False):
            def spec(c, hp=hp, per=per):
                _B(c)
                o = c.new(T + "whitening.Whiten", c.real("fduration"), c.real("sample_rate"), c.real(hp) if hp else None)
                c.sym("F", lo=2)
                psd = c.tensor("psd", ["B", "C", "F"] if per else ["C", "F"], "f64")
                return lambda x, p: c.call(o, x, p), [c.tensor("X", ["B", "C", "T"]), psd], [True, per]
            alone("Whiten,%s,%s" % (hp, "psd per sample" if per else "one psd"), spec)
    for avg in ("mean", "median"):
        for fast in (True, False):
            def spec(c, avg=avg, fast=fast):
                _B(c)
                o = c.new(T + "spectral.SpectralDensity", c.real("sample_rate"), c.real("fftlength"), average=avg, fast=fast)
                return lambda x: c.call(o, x), [c.tensor("X", ["B", "C", "T"])], [True]
            alone("SpectralDensity,%s,fast=%s" % (avg, fast), spec)
            if fast:
                alone("SpectralDensity,%s,fast=%s" % (avg, fast), lambda c, s=spec: (c.sym("C", lo=2), s(c))[1], "channel")


_spectral()


def _filters():
    for nd in (2, 3):
        def spec(c, nd=nd):
            _B(c)
            dims = ["B", "C", "T"][:nd - 1] + ["T"] if nd == 2 else ["B", "C", "T"]
            o = c.new(T + "iirfilter.IIRFilter", 4, c.real("Wn"), fs=c.real("fs"), btype="highpass")
            return lambda x: c.call(o, x), [c.tensor("x", dims, "f64")], [True]
        alone("IIRFilter,%dD" % nd, spec)
    for cls, kw in (("LeakyIntegrator", {}), ("TophatIntegrator", {})):
        def spec2(c, cls=cls):
            _B(c)
            if cls == "TophatIntegrator":
                o = c.new(T + "integrator." + cls, c.sym("rate", lo=1), c.sym("length", lo=1))
            else:
                o = c.new(T + "integrator." + cls, c.real("threshold"), c.real("decay"), c.real("lower_bound"), "score")
            return lambda x: c.call(o, x), [c.tensor("x", ["B", "T"])], [True]
        alone(cls, spec2)
    for ch in (True, False):
        def spec3(c, ch=ch):
            _B(c)
            o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if ch else None)
            c.method(o, "fit", c.tensor("Z", ["C", "S"] if ch else ["S"]))
            return lambda x: (c.call(o, x), c.call(o, x, reverse=True)), [c.tensor("x", ["B", "C", "T"] if ch else ["B", "T"])], [True]
        alone("ChannelWiseScaler,%s" % ch, spec3)

    def spec4(c):
        _B(c)
        o = c.new(T + "heterodyne.Heterodyne", c.sym("rate", lo=2), c.sym("length", lo=1), c.tensor("chirp_mass", ["M"]), "both")
        return lambda x: c.call(o, x), [c.tensor("x", ["B", "C", c.named("T", c.poly("rate") * c.poly("length"))])], [True]
    alone("Heterodyne", spec4)


_filters()


def _gw():
    for ifo in ("snr", "network"):
        for per in (True, False):
            def spec(c, ifo=ifo, per=per):
                _B(c)
                n = c.named("T", 2 * (c.poly(c.sym("F", lo=2)) - 1))
                psd = c.tensor("psd", ["B", "C", "F"] if per else ["C", "F"], "f64")
                fn = "compute_ifo_snr" if ifo == "snr" else "compute_network_snr"
                sr, hp = c.real("sample_rate"), c.real("highpass")
                return lambda x, p: c.call(G + fn, x, p, sr, hp), [c.tensor("responses", ["B", "C", n]), psd], [True, per]
            alone("%s,%s" % (ifo, per), spec)

    def rew(c):
        _B(c)
        n = c.named("T", 2 * (c.poly(c.sym("F", lo=2)) - 1))
        psd = c.tensor("psd", ["C", "F"], "f64")
        sr = c.real("sample_rate")
        return (lambda x, t: c.call(G + "reweight_snrs", x, t, psd, sr),
                [c.tensor("responses", ["B", "C", n]), c.tensor("target", ["B"])], [True, True])
    alone("reweight_snrs", rew)

    def ant(c):
        _B(c)
        d = c.tensor("detectors", ["I", 3, 3])
        return (lambda a, b, e: c.call(G + "compute_antenna_responses", a, b, e, d, c.list("modes", ["plus", "cross"])),
                [c.tensor(k, ["B"]) for k in ("theta", "psi", "phi")], [True] * 3)
    alone("compute_antenna_responses", ant)

    def obs(c):
        _B(c)
        d, v, sr = c.tensor("detectors", ["I", 3, 3]), c.tensor("vertices", ["I", 3]), c.real("sample_rate")
        return (lambda a, b, e, p, q: c.call(G + "compute_observed_strain", a, b, e, d, v, sr, plus=p, cross=q),
                [c.tensor(k, ["B"]) for k in ("dec", "psi", "phi")] + [c.tensor(k, ["B", "T"]) for k in ("plus", "cross")], [True] * 5)
    alone("compute_observed_strain", obs)


_gw()


def _waves():
    pn = ["chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination"]
    for cls, mod, pars in (("TaylorF2", "taylorf2", pn), ("IMRPhenomD", "phenom_d", pn)):
        def spec(c, cls=cls, mod=mod, pars=pars):
            _B(c)
            o = c.new(W + "cbc.%s.%s" % (mod, cls))
            f = c.tensor("f", [c.sym("F", lo=2)], "f64")
            fr = c.real("f_ref")
            return (lambda *p: c.call(o, f, f_ref=fr, **dict(zip(pars, p))), [c.tensor(n, ["B"], "f64") for n in pars], [True] * len(pars))
        alone(cls, spec, raises=True)
    for mod, cls, pars in (("sine_gaussian", "SineGaussian", ("quality", "frequency", "hrss", "phase", "eccentricity")),
                           ("ringdown", "Ringdown", ("frequency", "quality", "epsilon", "phase", "inclination", "distance"))):
        def spec2(c, mod=mod, cls=cls, pars=pars):
            _B(c)
            o = c.new(W + "adhoc.%s.%s" % (mod, cls), c.real("sample_rate"), c.real("duration"))
            return lambda *p: c.call(o, *p), [c.tensor(n, ["B"], "f64") for n in pars], [True] * len(pars)
        alone(cls, spec2)


_waves()


def _more():
    def fixed(c):
        _B(c)
        o = c.new(T + "whitening.FixedWhiten", 2, c.real("kernel_length"), c.real("sample_rate"))
        F = o.attrs["psd"].shape[1].p
        c.method(o, "fit", c.real("fduration"), *[c.tensor("b%d" % k, [F], "f64") for k in range(2)])
        return lambda x: c.call(o, x), [c.tensor("Y", ["B", 2, "T"])], [True]
    alone("FixedWhiten", fixed, raises=True)

    def snr(c):
        _B(c)
        o = c.new(T + "snr_rescaler.SnrRescaler", 2, c.real("sample_rate"), c.real("duration"))
        c.method(o, "fit", *[c.tensor("b%d" % j, ["S"], "f64") for j in range(2)], fftlength=c.real("fftlength"))
        n = c.named("n", 2 * (o.attrs["background"].shape[1].p - 1))
        return (lambda x, t: c.call(o, x, t)[0], [c.tensor("Y", ["B", 2, n]), c.tensor("target", ["B"])], [True, True])
    alone("SnrRescaler", snr, raises=True)

    def pearson(c):
        _B(c)
        o = c.new(T + "pearson.ShiftedPearsonCorrelation", c.sym("max_shift", lo=0))
        return lambda x, y: c.method(c.call(o, x, y), "transpose", 0, 1), [c.tensor(k, ["B", "C", "T"]) for k in "xy"], [True, True]
    alone("ShiftedPearsonCorrelation", pearson)

    def decim(split):
        def spec(c):
            _B(c)
            o = c.new(T + "decimator.Decimator", c.sym("rate", lo=1), c.tensor("schedule", [2, 3], device="cpu"), split)
            return lambda x: c.call(o, x), [c.tensor("X", ["B", "C", "T"])], [True]
        return spec
    for s in (False, True):
        alone("Decimator,split=%s" % s, decim(s), raises=True)

    def tile(norm):
        def spec(c):
            _B(c)
            o = c.new(T + "qtransform.QTile", 12, 64, 4, 512, 0.2)
            return lambda x: c.call(o, x, norm), [c.tensor("X", ["B", "C", 4 * 512 // 2 + 1], "c64")], [True]
        return spec
    for n in ("median", "mean", None):
        alone("QTile,%s" % n, tile(n))

    def spline(c):
        _B(c)
        o = c.new(T + "spline_interpolation.SplineInterpolate1D", c.tensor("x_in", [c.sym("W", lo=5)]), 3, c.real("sx"),
                  c.tensor("x_out", ["V"]))
        return lambda z: c.call(o, z), [c.tensor("Z", ["B", "C", "H", "W"])], [True]
    alone("SplineInterpolate1D", spline)

    V = W + "conversion."
    for fn, pars in (("chirp_mass_and_mass_ratio_to_components", ("chirp_mass", "mass_ratio")), ("rotate_y", "axyz"),
                     ("rotate_z", "axyz"),
                     ("bilby_spins_to_lalsim", ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "mass_1", "mass_2"))):
        def conv(c, fn=fn, pars=pars):
            _B(c)
            ts = [c.tensor(n, ["B"]) for n in pars]
            if fn == "bilby_spins_to_lalsim":
                fr = c.real("f_ref")
                return lambda *a: c.call(V + fn, *a[:9], fr, a[9]), ts + [c.tensor("phi_ref", ["B"])], [True] * 10
            return lambda *a: c.call(V + fn, *a), ts, [True] * len(ts)
        alone(fn, conv)

    def norm(c):
        _B(c)
        o = c.new(N + "norm.GroupNorm1D", 6, 3)
        c.trained(o)
        return lambda x: c.call(o, x), [c.tensor("x", ["B", 6, "T"])], [True]
    alone("GroupNorm1D", norm)


_more()
