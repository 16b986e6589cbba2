"""Paired entry points of the ad hoc waveforms, parameter conversions and time bounds."""
from .e_ref import pair

W = "ml4gw.waveforms."


def _burst():
    for dt in ("f32", "f64"):
        @pair("P22:SineGaussian[%s]" % dt, "P22")
        def spec(c, dt=dt):
            sr, dur = c.real("sample_rate"), c.real("duration")
            p = [c.tensor(n, ["B"], dt) for n in ("quality", "frequency", "hrss", "phase", "eccentricity")]
            return c.pair(lambda: c.call(c.new(W + "adhoc.sine_gaussian.SineGaussian", sr, dur), *p),
                          lambda: c.ref("bursts.sine_gaussian", sr, dur, *p))

        @pair("P22:Ringdown[%s]" % dt, "P22")
        def spec2(c, dt=dt):
            sr, dur = c.real("sample_rate"), c.real("duration")
            p = [c.tensor(n, ["B"], dt) for n in ("frequency", "quality", "epsilon", "phase", "inclination", "distance")]
            return c.pair(lambda: c.call(c.new(W + "adhoc.ringdown.Ringdown", sr, dur), *p),
                          lambda: c.ref("bursts.ringdown", sr, dur, *p))


_burst()


def _conv():
    V = W + "conversion."
    for name, target, ref, pars in (
            ("chirp_mass_and_mass_ratio_to_components", V + "chirp_mass_and_mass_ratio_to_components", "components",
             ["chirp_mass", "mass_ratio"]),
            ("rotate_z", V + "rotate_z", "rotate_z", ["angle", "x", "y", "z"]),
            ("rotate_y", V + "rotate_y", "rotate_y", ["angle", "x", "y", "z"]),
            ("XLALSimInspiralLN", V + "XLALSimInspiralLN", "orbital_momentum", ["total_mass", "eta", "v"]),
            ("XLALSimInspiralL_2PN", V + "XLALSimInspiralL_2PN", "orbital_momentum_2pn", ["eta"]),
            ("taylor_t2_timing_0pn_coeff", W + "cbc.coefficients.taylor_t2_timing_0pn_coeff", "t2_0pn", ["total_mass", "eta"]),
            ("taylor_t2_timing_2pn_coeff", W + "cbc.coefficients.taylor_t2_timing_2pn_coeff", "t2_2pn", ["eta"]),
            ("taylor_t2_timing_4pn_coeff", W + "cbc.coefficients.taylor_t2_timing_4pn_coeff", "t2_4pn", ["eta"]),
            ("taylor_t3_frequency_0pn_coeff", W + "cbc.coefficients.taylor_t3_frequency_0pn_coeff", "t3_0pn", ["total_mass"]),
            ("chirp_time_bound", W + "cbc.utils.chirp_time_bound", "chirp_time_bound",
             ["fstart", "mass_1", "mass_2", "s1", "s2"]),
            ("chirp_start_frequency_bound", W + "cbc.utils.chirp_start_frequency_bound", "chirp_start_frequency_bound",
             ["tchirp", "mass_1", "mass_2"]),
            ("final_black_hole_spin_bound", W + "cbc.utils.final_black_hole_spin_bound", "final_spin_bound", ["s1z", "s2z"]),
            ("merge_time_bound", W + "cbc.utils.merge_time_bound", "merge_time_bound", ["mass_1", "mass_2"]),
            ("ringdown_time_bound", W + "cbc.utils.ringdown_time_bound", "ringdown_time_bound", ["total_mass", "spin"]),
            ("frequency_isco", W + "cbc.utils.frequency_isco", "frequency_isco", ["mass_1", "mass_2"])):
        @pair("P23:" + name, "P23")
        def spec(c, target=target, ref=ref, pars=pars):
            p = [c.tensor(n, ["B"], "f64") for n in pars]
            return c.pair(lambda: c.call(target, *p), lambda: c.ref("bursts." + ref, *p))

    for sign in ("positive", "any"):
        @pair("P23:bilby_spins_to_lalsim[f_ref %s]" % sign, "P23")
        def spec2(c, sign=sign):
            p = [c.tensor(n, ["B"], "f64") for n in ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2",
                                                     "mass_1", "mass_2")]
            p += [c.real("f_ref", pos=sign == "positive"), c.tensor("phi_ref", ["B"], "f64")]
            return c.pair(lambda: c.call(V + "bilby_spins_to_lalsim", *p), lambda: c.ref("bursts.spins", *p))


_conv()
