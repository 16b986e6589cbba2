"""Paired entry points of the time domain waveform conditioning."""
from ..shapes import Dim
from .e_ref import pair

W = "ml4gw.waveforms."
G = W + "generator.TimeDomainCBCWaveformGenerator"
PARS = ("mass_1", "mass_2", "s1z", "s2z", "distance")


def approximant(c):
    def body(I, args, kw):
        f = args[0]
        ps = tuple(v for v in kw.values() if hasattr(v, "shape") and v.shape is not None)
        sh = None if f.shape is None else (Dim(c.poly("B")),) + tuple(f.shape)
        return (I.tensor("callback", (f,) + ps, "cross", sh, "c128", f.device),
                I.tensor("callback", (f,) + ps, "plus", sh, "c128", f.device))
    return c.callback("approximant", body)


def _gen():
    def setting(c):
        return [c.real(n, pos=True) for n in ("sample_rate", "duration", "f_min", "f_ref", "right_pad")]

    @pair("P24:generate_conditioned_fd_waveform", "P24")
    def spec(c):
        sr, dur, fmin, fref, rpad = setting(c)
        a = approximant(c)
        p = {n: c.tensor(n, ["B"], "f64") for n in PARS}
        o = c.new(G, a, sr, dur, fmin, fref, rpad)
        return c.pair(lambda: c.method(o, "generate_conditioned_fd_waveform", **p),
                      lambda: c.ref("generator.spectrum", a, sr, fmin, fref, rpad, c.dict("parameters", p)))

    @pair("P24:apply_td_condition_stage2", "P24")
    def spec2(c):
        sr, dur, fmin, fref, rpad = setting(c)
        p = {n: c.tensor(n, ["B"], "f64") for n in PARS}
        hc, hp = (c.tensor(n, ["B", "N"], "f64") for n in ("hc", "hp"))
        o = c.new(G, approximant(c), sr, dur, fmin, fref, rpad)
        return c.pair(lambda: c.method(o, "apply_td_condition_stage2", *[c.method(h, "clone") for h in (hc, hp)], c.dict("parameters", p)),
                      lambda: c.ref("generator.taper", sr, fmin, hc, hp, c.dict("parameters", p)))

    @pair("P24:forward", "P24")
    def spec3(c):
        sr, dur, fmin, fref, rpad = setting(c)
        a = approximant(c)
        p = {n: c.tensor(n, ["B"], "f64") for n in PARS}
        o = c.new(G, a, sr, dur, fmin, fref, rpad)
        return c.pair(lambda: c.call(o, **p),
                      lambda: c.ref("generator.waveform", a, sr, dur, fmin, fref, rpad, c.I.getattr(o, "highpass"), c.dict("parameters", p)))

    @pair("P24:highpass", "P24")
    def spec4(c):
        sr, dur, fmin, fref, rpad = setting(c)
        x = c.tensor("x", ["B", "T"], "f64")
        return c.pair(lambda: c.call(c.I.getattr(c.new(G, approximant(c), sr, dur, fmin, fref, rpad), "highpass"), x),
                      lambda: c.ref("generator.highpass", sr, fmin, x))

    @pair("P24:grid sizes", "P24")
    def spec5(c):
        sr, dur, fmin, fref, rpad = setting(c)
        o = c.new(G, approximant(c), sr, dur, fmin, fref, rpad)
        return c.pair(lambda: tuple(c.I.getattr(o, k) for k in ("size", "nyquist", "delta_f", "delta_t")),
                      lambda: c.ref("generator.sizes", sr, dur))

    @pair("P24:get_frequencies", "P24")
    def spec6(c):
        sr, dur, fmin, fref, rpad = setting(c)
        o = c.new(G, approximant(c), sr, dur, fmin, fref, rpad)
        df = c.real("df", pos=True)
        return c.pair(lambda: c.method(o, "get_frequencies", df), lambda: c.ref("generator.grid", sr, df))


_gen()
