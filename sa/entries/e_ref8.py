"""Paired entry points of the precessing approximant."""
from .e_ref import pair

P = "ml4gw.waveforms.cbc.phenom_p.IMRPhenomPv2"
R = "phenomp."


def _phenomp():
    def batch(c, *names):
        return [c.tensor(n, ["B"], "f64") for n in names]

    def sq(c, x):
        return c.probe("phenomd.square", x)

    def add(name):
        def deco(body):
            @pair("P21:" + name, "P21")
            def spec(c):
                return body(c, c.new(P))
        return deco

    @add("L2PNR")
    def l2pn(c, o):
        v, eta = batch(c, "v", "eta")
        return c.pair(lambda: c.method(o, "L2PNR", v, eta), lambda: c.ref(R + "orbital_momentum", v, eta))

    @add("WignerdCoefficients")
    def wigner(c, o):
        v = c.tensor("v", ["F", "B"], "f64")
        SL, eta, Sp = batch(c, "SL", "eta", "Sp")
        return c.pair(lambda: c.method(o, "WignerdCoefficients", v, SL, eta, Sp),
                      lambda: c.ref(R + "half_angle_rows", v, SL, eta, Sp))

    for m in (-2, -1, 0, 1, 2, 3):
        def ylm(c, o, m=m):
            theta, = batch(c, "theta")
            return c.pair(lambda: c.method(o, "SpinWeightedY", theta, 0, -2, 2, m), lambda: c.ref(R + "harmonic", theta, m))
        add("SpinWeightedY[m=%d]" % m)(ylm)

    @add("ComputeNNLOanglecoeffs")
    def nnlo(c, o):
        p = batch(c, "q", "chil", "chip")
        return c.pair(lambda: c.method(o, "ComputeNNLOanglecoeffs", *p), lambda: c.ref(R + "coefficients", *p))

    @add("convert_spins")
    def spins(c, o):
        m1, m2 = batch(c, "m1", "m2")
        f = c.real("f_ref", pos=True)
        p = batch(c, "phic", "inclination", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z")
        return c.pair(lambda: c.method(o, "convert_spins", m1, m2, f, *p),
                      lambda: c.ref(R + "frames_light_first", m1, m2, f, *p))

    @add("FinalSpin_inplane")
    def spin(c, o):
        p = batch(c, "m1", "m2", "chi1", "chi2", "chip")
        return c.pair(lambda: c.method(o, "FinalSpin_inplane", *p), lambda: c.ref(R + "remnant_spin", *p))

    @add("interpolate")
    def interp(c, o):
        x = c.tensor("x", ["B", "F"], "f64")
        xp, fp = c.tensor("xp", ["N"], "f64"), c.tensor("fp", ["N"], "f64")
        return c.pair(lambda: c.method(o, "interpolate", x, xp, fp), lambda: c.ref(R + "line_any", x, xp, fp))

    @add("phP_get_fRD_fdamp")
    def ring(c, o):
        p = batch(c, "m1", "m2", "chi1", "chi2", "chip")
        g = c.list("grid", [c.I.getattr(o, "qnmdata_" + n) for n in ("a", "fdamp", "fring")])
        return c.pair(lambda: c.method(o, "phP_get_fRD_fdamp", *p), lambda: c.ref(R + "ringdown", g, *p))

    @add("get_Amp0")
    def amp0(c, o):
        Mf = c.tensor("Mf", ["B", "F"], "f64")
        eta, = batch(c, "eta")
        return c.pair(lambda: c.method(o, "get_Amp0", Mf, eta), lambda: c.ref(R + "leading_amplitude", Mf, eta))

    @add("PhenomPOneFrequency")
    def one(c, o):
        f = c.tensor("f", ["F"], "f64")
        m1, m2, eta, d, chi1, chi2, chip, phic, M, x, dist = batch(
            c, "m1", "m2", "eta", "Seta", "chi1", "chi2", "chip", "phic", "M", "xi", "distance")
        e2, c1, c2 = sq(c, eta), sq(c, chi1), sq(c, chi2)
        return c.pair(lambda: c.method(o, "PhenomPOneFrequency", f, m1, m2, eta, e2, d, chi1, chi2, c1, c2, chip, phic, M, x, dist),
                      lambda: c.ref(R + "aligned", o, f, m1, m2, eta, d, chi1, chi2, chip, phic, M, x, dist))

    @add("PhenomPCoreTwistUp")
    def twist(c, o):
        f = c.tensor("f", ["F"], "f64")
        h = c.tensor("h", ["B", "F"], "c128")
        eta, light, heavy, chip, M, a0, e0 = batch(c, "eta", "chi1", "chi2", "chip", "M", "alphaoffset", "epsilonoffset")
        al, ep = [batch(c, *["%s%d" % (n, k) for k in range(1, 6)]) for n in ("alphacoeff", "epsiloncoeff")]
        co = c.dict("angcoeffs", {**{"alphacoeff%d" % (k + 1): al[k] for k in range(5)},
                                  **{"epsiloncoeff%d" % (k + 1): ep[k] for k in range(5)}})
        Y = c.tensor("Y", [5, "B"], "c128")
        la, le = c.list("alpha", al), c.list("epsilon", ep)
        return c.pair(lambda: c.method(o, "PhenomPCoreTwistUp", f, h, eta, light, heavy, chip, M, co, Y, a0, e0),
                      lambda: c.ref(R + "twist", f, h, eta, heavy, light, chip, M, la, le, Y, a0, e0))

    for tc in (False, True):
        def forward(c, o, tc=tc):
            f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
            p = batch(c, "chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "distance", "phic", "inclination")
            t = batch(c, "tc") if tc else []
            return c.pair(lambda: c.call(o, f, *p, fref, *t), lambda: c.ref(R + "waveform", o, f, *p, fref, *t))
        add("forward" + ("[tc]" if tc else ""))(forward)


_phenomp()
