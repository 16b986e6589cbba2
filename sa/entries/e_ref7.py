"""Paired entry points of the frequency domain approximants."""
from .e_ref import pair

W = "ml4gw.waveforms.cbc."


def _taylor():
    T = W + "taylorf2.TaylorF2"
    names = ("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination")

    @pair("P19:TaylorF2.forward", "P19")
    def spec(c):
        f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
        p = [c.tensor(n, ["B"], "f64") for n in names]
        return c.pair(lambda: c.call(c.new(T), f, *p, fref), lambda: c.ref("inspiral.taylorf2", f, *p, fref))

    for odd in names:
        @pair("P19:TaylorF2.forward[%s of another length]" % odd, "P19")
        def spec2(c, odd=odd):
            f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
            p = [c.tensor(n, ["B2" if n == odd else "B"], "f64") for n in names]
            return c.pair(lambda: c.call(c.new(T), f, *p, fref), lambda: c.ref("inspiral.taylorf2", f, *p, fref))

    @pair("P19:taylorf2_phase", "P19")
    def spec3(c):
        p = [c.tensor("Mf", ["B", "F"], "f64")] + [c.tensor(n, ["B"], "f64") for n in ("mass1", "mass2", "chi1", "chi2")]
        return c.pair(lambda: c.method(c.new(T), "taylorf2_phase", *p), lambda: c.ref("inspiral.phase", *p))

    @pair("P19:taylorf2_amplitude", "P19")
    def spec4(c):
        p = [c.tensor("Mf", ["B", "F"], "f64")] + [c.tensor(n, ["B"], "f64") for n in ("mass1", "mass2", "eta", "distance")]
        return c.pair(lambda: c.method(c.new(T), "taylorf2_amplitude", *p), lambda: c.ref("inspiral.amplitude", *p))

    @pair("P19:taylorf2_htilde", "P19")
    def spec5(c):
        f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
        p = [c.tensor(n, ["B"], "f64") for n in ("mass1", "mass2", "chi1", "chi2", "distance", "phic")]
        return c.pair(lambda: c.method(c.new(T), "taylorf2_htilde", f, *p, fref),
                      lambda: c.ref("inspiral.htilde", f, *p, fref))


_taylor()


def _phenomd():
    D = W + "phenom_d.IMRPhenomD"
    R = "phenomd."

    def batch(c, *names):
        return [c.tensor(n, ["B"], "f64") for n in names]

    def grid(c):
        return [c.tensor(n, ["B", "F"], "f64") for n in ("Mf",)]

    def sq(c, x):
        return c.probe(R + "square", x)

    def add(name, body):
        @pair("P20:" + name, "P20")
        def spec(c):
            return body(c, c.new(D))

    from ..refs import phenomd_fits
    for k in sorted(phenomd_fits.FITS):
        def fits(c, o, k=k):
            eta, x = batch(c, "eta", "xi")
            e2 = sq(c, eta)
            return c.pair(lambda: c.method(o, k, eta, e2, x), lambda: c.ref("phenomd_fits.fit", k, eta, x))
        add(k, fits)

    def simple(target, ref, names, pick):
        def body(c, o):
            v = dict(zip(names, batch(c, *names)))
            v["eta2"] = sq(c, v["eta"]) if "eta" in v else None
            return c.pair(lambda: c.method(o, target, *[v[n] for n in pick]), lambda: c.ref(R + ref, *[v[n] for n in names]))
        add(target, body)
    simple("FinalSpin0815", "final_spin", ("eta", "chi1", "chi2"), ("eta", "eta2", "chi1", "chi2"))
    simple("PhenomInternal_EradRational0815", "radiated_energy", ("eta", "chi1", "chi2"), ("eta", "eta2", "chi1", "chi2"))
    simple("chiPN", "chi_pn", ("Seta", "eta", "chi1", "chi2"), ("Seta", "eta", "chi1", "chi2"))
    simple("fmaxCalc", "peak", ("fRD", "fDM", "gamma2", "gamma3"), ("fRD", "fDM", "gamma2", "gamma3"))

    def tables(c, o):
        return c.list("grid", [c.I.getattr(o, "qnmdata_" + n) for n in ("a", "fdamp", "fring")])

    def interp(c, o):
        x, = batch(c, "finspin")
        g = tables(c, o)
        return c.pair(lambda: c.method(o, "_linear_interp_finspin", x), lambda: c.ref(R + "ringdown_on_grid", g, x))
    add("_linear_interp_finspin", interp)

    def ring(c, o):
        eta, chi1, chi2 = batch(c, "eta", "chi1", "chi2")
        e2, g = sq(c, eta), tables(c, o)
        return c.pair(lambda: c.method(o, "fring_fdamp", eta, e2, chi1, chi2),
                      lambda: c.ref(R + "ringdown", g, eta, chi1, chi2))
    add("fring_fdamp", ring)

    def quartic(c, o):
        p = [c.tensor(n, ["B", 1], "f64") for n in ("f1", "f2", "f3", "v1", "v2", "v3", "d1", "d2")]
        return c.pair(lambda: c.probe(R + "quartic_conditions", o, *p), lambda: c.ref(R + "quartic_targets", *p))
    add("delta_values", quartic)

    def ins_phase(c, o):
        Mf, = grid(c)
        m1, m2, eta, x, chi1, chi2 = batch(c, "mass_1", "mass_2", "eta", "xi", "chi1", "chi2")
        e2 = sq(c, eta)
        return c.pair(lambda: c.method(o, "phenom_d_inspiral_phase", Mf, m1, m2, eta, e2, x, chi1, chi2),
                      lambda: c.ref(R + "inspiral_phase", Mf, m1, m2, eta, x, chi1, chi2))
    add("phenom_d_inspiral_phase", ins_phase)

    def int_phase(c, o):
        Mf, = grid(c)
        eta, x = batch(c, "eta", "xi")
        e2 = sq(c, eta)
        return c.pair(lambda: c.method(o, "phenom_d_int_phase", Mf, eta, e2, x),
                      lambda: c.ref(R + "intermediate_phase", Mf, eta, x))
    add("phenom_d_int_phase", int_phase)

    for flat in (False, True):
        def mrd_phase(c, o, flat=flat):
            Mf = c.tensor("Mf", ["B"] if flat else ["B", "F"], "f64")
            eta, x, chi1, chi2, fr, fd = batch(c, "eta", "xi", "chi1", "chi2", "fRD", "fDM")
            e2 = sq(c, eta)
            return c.pair(lambda: c.method(o, "phenom_d_mrd_phase", Mf, eta, e2, chi1, chi2, x, fr, fd),
                          lambda: c.ref(R + "ringdown_phase" + ("_at" if flat else ""), Mf, eta, x, fr, fd))
        add("phenom_d_mrd_phase[%s]" % ("one frequency each" if flat else "grid"), mrd_phase)

    def whole_phase(c, o):
        Mf, = grid(c)
        m1, m2, eta, x, chi1, chi2, fr, fd = batch(c, "mass_1", "mass_2", "eta", "xi", "chi1", "chi2", "fRD", "fDM")
        e2 = sq(c, eta)
        return c.pair(lambda: c.method(o, "phenom_d_phase", Mf, m1, m2, eta, e2, chi1, chi2, x, fr, fd),
                      lambda: c.ref(R + "full_phase", Mf, m1, m2, eta, chi1, chi2, x, fr, fd))
    add("phenom_d_phase", whole_phase)

    def ins_amp(c, o):
        Mf, = grid(c)
        eta, d, x, chi1, chi2 = batch(c, "eta", "Seta", "xi", "chi1", "chi2")
        e2, c1, c2 = sq(c, eta), sq(c, chi1), sq(c, chi2)
        return c.pair(lambda: c.method(o, "phenom_d_inspiral_amp", Mf, eta, e2, d, x, chi1, chi2, c1, c2),
                      lambda: c.ref(R + "inspiral_amp", Mf, eta, d, x, chi1, chi2))
    add("phenom_d_inspiral_amp", ins_amp)

    def mrd_amp(c, o):
        Mf, = grid(c)
        p = batch(c, "fRD", "fDM", "gamma1", "gamma2", "gamma3")
        return c.pair(lambda: c.method(o, "phenom_d_mrd_amp", Mf, *p), lambda: c.ref(R + "ringdown_amp", Mf, *p))
    add("phenom_d_mrd_amp", mrd_amp)

    for target, ref in (("phenom_d_int_amp", "intermediate_amp"), ("phenom_d_amp", "full_amp")):
        def amp(c, o, target=target, ref=ref):
            Mf, = grid(c)
            eta, d, x, chi1, chi2 = batch(c, "eta", "Seta", "xi", "chi1", "chi2")
            fr, fd, g1, g2, g3, top = batch(c, "fRD", "fDM", "gamma1", "gamma2", "gamma3", "Mf_peak")
            e2, c1, c2 = sq(c, eta), sq(c, chi1), sq(c, chi2)
            mid = (x, chi1, chi2) if ref == "intermediate_amp" else (chi1, chi2, x)
            return c.pair(lambda: c.method(o, target, Mf, eta, e2, d, chi1, chi2, c1, c2, x, fr, fd, g1, g2, g3, top),
                          lambda: c.ref(R + ref, Mf, o, eta, d, *mid, fr, fd, g1, g2, g3, top))
        add(target, amp)

    names = ("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination")

    def htilde(c, o):
        f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
        p = batch(c, *names[:-1])
        return c.pair(lambda: c.method(o, "phenom_d_htilde", f, *p, fref), lambda: c.ref(R + "htilde", o, f, *p, fref))
    add("phenom_d_htilde", htilde)

    for odd in (None,) + names:
        def forward(c, o, odd=odd):
            f, fref = c.tensor("f", ["F"], "f64"), c.real("f_ref", pos=True)
            p = [c.tensor(n, ["B2" if n == odd else "B"], "f64") for n in names]
            return c.pair(lambda: c.call(o, f, *p, fref), lambda: c.ref(R + "waveform", o, f, *p, fref))
        add("forward" + ("[%s of another length]" % odd if odd else ""), forward)


_phenomd()
