"""waveforms/*"""
from . import entry

W = "ml4gw.waveforms."
CBC = W + "cbc."
SP = dict(group="waveforms", batch=["B"], chan=[], time=["F"])
PN = ["chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination"]
PV = ["chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "distance", "phic", "inclination"]


def _cbc():
    for cls, mod, pars in (("TaylorF2", "taylorf2", PN), ("IMRPhenomD", "phenom_d", PN),
                           ("IMRPhenomPv2", "phenom_p", PV)):
        C = CBC + mod + "." + cls
        for dt in ("f32", "f64"):
            for tc in ((None, "tc") if cls == "IMRPhenomPv2" else (None,)):
                @entry("%s[%s%s]" % (cls, dt, ",tc" if tc else ""), cls=C, module=C, dtype=dt, strain=True,
                       approximant=True, **SP)
                def spec(c, C=C, pars=pars, dt=dt, tc=tc):
                    o = c.new(C)
                    c.sym("F", lo=2)
                    f = c.tensor("f", ["F"], dt)
                    p = {n: c.tensor(n, ["B"], dt) for n in pars}
                    if tc:
                        p["tc"] = c.tensor("tc", ["B"], dt)
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, f, f_ref=c.real("f_ref"), **p)

    for fn, pars in (("chirp_time_bound", ["fstart", "mass_1", "mass_2", "s1", "s2"]),
                     ("chirp_start_frequency_bound", ["tchirp", "mass_1", "mass_2"]),
                     ("final_black_hole_spin_bound", ["s1z", "s2z"]), ("merge_time_bound", ["mass_1", "mass_2"]),
                     ("ringdown_time_bound", ["total_mass", "spin"]), ("frequency_isco", ["mass_1", "mass_2"])):
        @entry("cbc.utils.%s" % fn, utilfn=fn, **SP)
        def spec2(c, fn=fn, pars=pars):
            a = [c.tensor(n, ["B"], "f64") for n in pars]
            c.begin()
            return c.call(CBC + "utils." + fn, *a)

    for fn, pars in (("taylor_t2_timing_0pn_coeff", ["total_mass", "eta"]), ("taylor_t2_timing_2pn_coeff", ["eta"]),
                     ("taylor_t2_timing_4pn_coeff", ["eta"]), ("taylor_t3_frequency_0pn_coeff", ["total_mass"])):
        @entry("cbc.coefficients.%s" % fn, utilfn=fn, **SP)
        def spec3(c, fn=fn, pars=pars):
            a = [c.tensor(n, ["B"], "f64") for n in pars]
            c.begin()
            return c.call(CBC + "coefficients." + fn, *a)


_cbc()


def _conv():
    @entry("chirp_mass_and_mass_ratio_to_components", **SP)
    def spec(c):
        a = [c.tensor(n, ["B"]) for n in ("chirp_mass", "mass_ratio")]
        c.begin()
        return c.call(W + "conversion.chirp_mass_and_mass_ratio_to_components", *a)

    @entry("bilby_spins_to_lalsim", **SP)
    def spec2(c):
        a = [c.tensor(n, ["B"]) for n in ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "mass_1",
                                          "mass_2")]
        c.begin()
        return c.call(W + "conversion.bilby_spins_to_lalsim", *a, c.real("f_ref"), c.tensor("phi_ref", ["B"]))

    for fn in ("rotate_y", "rotate_z"):
        @entry(fn, rotation=True, **SP)
        def spec3(c, fn=fn):
            a = [c.tensor(n, ["B"]) for n in ("angle", "x", "y", "z")]
            c.begin()
            return c.call(W + "conversion." + fn, *a)


_conv()


def _adhoc():
    S = W + "adhoc.SineGaussian"

    @entry("SineGaussian", group="waveforms", batch=["B"], chan=[], time=["T"], cls=S, module=S)
    def spec(c):
        o = c.new(W + "adhoc.sine_gaussian.SineGaussian", c.real("sample_rate"), c.real("duration"))
        p = [c.tensor(n, ["B"]) for n in ("quality", "frequency", "hrss", "phase", "eccentricity")]
        c.publish(o)
        c.obj = o
        c.begin()
        return c.call(o, *p)

    R = W + "adhoc.Ringdown"

    @entry("Ringdown", group="waveforms", batch=["B"], chan=[], time=["T"], cls=R, module=R)
    def spec2(c):
        o = c.new(W + "adhoc.ringdown.Ringdown", c.real("sample_rate"), c.real("duration"))
        p = [c.tensor(n, ["B"]) for n in ("frequency", "quality", "epsilon", "phase", "inclination", "distance")]
        c.publish(o)
        c.obj = o
        c.begin()
        return c.call(o, *p)


_adhoc()


def _gen():
    G = W + "generator.TimeDomainCBCWaveformGenerator"

    @entry("TimeDomainCBCWaveformGenerator", group="waveforms", batch=["B"], chan=[], time=["T"], cls=G, module=G,
           crossbatch="df")
    def spec(c):
        def approx(I, args, kw):
            f = args[0]
            ps = tuple(v for v in kw.values() if hasattr(v, "shape") and v.shape is not None)
            from ..shapes import Dim
            sh = (Dim(c.poly("B")),) + tuple(f.shape)
            return (I.tensor("callback", (f,) + ps, "cross", sh, "c64", f.device),
                    I.tensor("callback", (f,) + ps, "plus", sh, "c64", f.device))
        o = c.new(G, c.callback("approximant", approx), c.real("sample_rate"), c.real("duration"), c.real("f_min"),
                  c.real("f_ref"), c.real("right_pad"))
        p = {n: c.tensor(n, ["B"]) for n in ("mass_1", "mass_2", "s1z", "s2z")}
        c.publish(o)
        c.obj = o
        c.begin()
        return c.call(o, **p)


_gen()
