"""spectral.py, gw.py, slicing, interferometer geometry."""
from . import entry, SHAPES
from .. import algebra as A

SP = "ml4gw.spectral."
GW = "ml4gw.gw."
SL = "ml4gw.utils.slicing."


PAR = ("even", "odd")


def _spectral():
    for nd in (1, 2, 3):
        for avg in ("mean", "median"):
            for dt, par in (("f32", 0), ("f64", 1), ("f64", 0), ("f32", 1)):
                tags = dict(group="spectral", ndim=nd, average=avg, batch=["B"], chan=["C"], time=["T"], dtype=dt)

                @entry("spectral_density[x=%dD,%s,%s,%s]" % (nd, avg, dt, PAR[par]), **tags)
                def spec(c, nd=nd, avg=avg, dt=dt, par=par):
                    x = c.tensor("x", SHAPES[nd], dt)
                    n, s = c.named("nperseg", 2 * c.poly(c.sym("M")) + par), c.sym("nstride")
                    w = c.tensor("window", [n], "f32")
                    c.begin()
                    return c.call(SP + "spectral_density", x, n, s, w, c.real("scale"), average=avg)

                for ynd in (None,) + tuple(range(1, nd + 1)):
                    tags = dict(tags, ynd=ynd)

                    @entry("fast_spectral_density[x=%dD,y=%s,%s,%s,%s]" % (nd, ynd, avg, dt, PAR[par]), **tags)
                    def spec2(c, nd=nd, avg=avg, ynd=ynd, dt=dt, par=par):
                        x = c.tensor("x", SHAPES[nd], dt)
                        if ynd is None:
                            y = None
                        elif ynd == nd:
                            y = c.tensor("y", SHAPES[nd], dt)
                        else:
                            y = c.tensor("y", SHAPES[3][:1] * (nd == 3 and ynd == 2) + ["T"], dt)
                        n, s = c.named("nperseg", 2 * c.poly(c.sym("M")) + par), c.sym("nstride")
                        w = c.tensor("window", [n], "f32")
                        c.begin()
                        return c.call(SP + "fast_spectral_density", x, n, s, w, c.real("scale"), average=avg, y=y)

    @entry("median", group="spectral", batch=["B"], chan=["C"], time=["T"])
    def spec3(c):
        x = c.tensor("x", ["B", "C", "F", "W"], "f64")
        c.begin()
        return c.call(SP + "median", x, -1)

    for pn in (1, 2, 3):
        for hp, lp in ((0, 0), (1, 0), (0, 1), (1, 1)):
          for par, win in ((0, False), (1, False), (0, True), (1, True)):
            @entry("truncate_inverse_power_spectrum[psd=%dD,hp=%d,lp=%d,%s%s]" % (pn, hp, lp, PAR[par], ",window" * win),
                   group="spectral", batch=["B"], chan=["C"], time=["M"])
            def spec4(c, pn=pn, hp=hp, lp=lp, par=par, win=win):
                F = c.named("F", 2 * c.poly(c.sym("M", lo=2)) + par)
                psd = c.tensor("psd", ["B", "C", F][3 - pn:], "f64")
                c.begin()
                return c.call(SP + "truncate_inverse_power_spectrum", psd,
                              c.tensor("window", ["W"], "f64") if win else c.real("fduration"), c.real("sample_rate"),
                              c.real("highpass") if hp else None, c.real("lowpass") if lp else None)

    for pn in (1, 2, 3):
        for crop in (True, False):
            @entry("normalize_by_psd[psd=%dD,crop=%s]" % (pn, crop), group="spectral", batch=["B"], chan=["C"],
                   time=["T"])
            def spec5(c, pn=pn, crop=crop):
                x = c.tensor("X", SHAPES[3], "f32")
                c.sym("T", lo=2)
                psd = c.tensor("psd", (["B", "C"] + [A.idiv(c.poly("T"), A.Poly.const(2)) + 1])[3 - pn:], "f64")
                pad = c.sym("pad", lo=1)
                c.begin()
                return c.call(SP + "normalize_by_psd", x, psd, c.real("sample_rate"), pad, crop)

            for hp, lp, par in ((0, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 2), (1, 0, 3)):
                @entry("whiten[psd=%dD,crop=%s,f=%d%d,%d mod 4]" % (pn, crop, hp, lp, par), group="spectral", batch=["B"], chan=["C"],
                       time=["T"])
                def spec6(c, pn=pn, crop=crop, hp=hp, lp=lp, par=par):
                    T = c.named("T", 4 * c.poly(c.sym("M", lo=2)) + par)
                    x = c.tensor("X", ["B", "C", T], "f32")
                    c.sym("F", lo=2)
                    psd = c.tensor("psd", ["B", "C", "F"][3 - pn:], "f64")
                    c.begin()
                    return c.call(SP + "whiten", x, psd, c.real("fduration"), c.real("sample_rate"),
                                  c.real("highpass") if hp else None, c.real("lowpass") if lp else None, crop=crop)


_spectral()


def _gw():
    def angles(c, dt="f32"):
        return c.tensor("dec", ["B"], dt), c.tensor("psi", ["B"], dt), c.tensor("phi", ["B"], dt)

    def geom(c):
        return c.tensor("detector_tensors", ["I", 3, 3], "f32"), c.tensor("detector_vertices", ["I", 3], "f32")

    for modes in (["plus"], ["plus", "cross"], ["plus", "cross", "breathing"], ["cross", "plus"]):
        @entry("compute_antenna_responses[%s]" % ",".join(modes), group="gw", batch=["B"], chan=["I"], time=[])
        def spec(c, modes=modes):
            th, ps, ph = angles(c)
            d, _ = geom(c)
            c.begin()
            return c.call(GW + "compute_antenna_responses", th, ps, ph, d, c.list("modes", list(modes)))

        @entry("compute_observed_strain[%s]" % ",".join(modes), group="gw", batch=["B"], chan=["I"], time=["T"])
        def spec2(c, modes=modes):
            th, ps, ph = angles(c)
            d, v = geom(c)
            pol = {m: c.tensor("pol_" + m, ["B", "T"], "f32") for m in modes}
            c.begin()
            return c.call(GW + "compute_observed_strain", th, ps, ph, d, v, c.real("sample_rate"), **pol)

    @entry("compute_observed_strain[f64 waveforms]", group="gw", batch=["B"], chan=["I"], time=["T"])
    def spec2b(c):
        th, ps, ph = angles(c)
        d, v = geom(c)
        pol = {m: c.tensor("pol_" + m, ["B", "T"], "f64") for m in ("plus", "cross")}
        c.begin()
        return c.call(GW + "compute_observed_strain", th, ps, ph, d, v, c.real("sample_rate"), **pol)

    for dts in (("f64", "f32"), ("f32", "f64"), ("f64", "f64")):
        @entry("compute_antenna_responses[plus,cross|angles %s, geometry %s]" % dts, group="gw", batch=["B"], chan=["I"], time=[])
        def spec1c(c, dts=dts):
            th, ps, ph = angles(c, dts[0])
            d = c.tensor("detector_tensors", ["I", 3, 3], dts[1])
            c.begin()
            return c.call(GW + "compute_antenna_responses", th, ps, ph, d, c.list("modes", ["plus", "cross"]))

        @entry("compute_observed_strain[plus,cross|angles %s, geometry %s]" % dts, group="gw", batch=["B"], chan=["I"], time=["T"])
        def spec1d(c, dts=dts):
            th, ps, ph = angles(c, dts[0])
            d, v = c.tensor("detector_tensors", ["I", 3, 3], dts[1]), c.tensor("detector_vertices", ["I", 3], dts[1])
            pol = {m: c.tensor("pol_" + m, ["B", "T"], dts[0]) for m in ("plus", "cross")}
            c.begin()
            return c.call(GW + "compute_observed_strain", th, ps, ph, d, v, c.real("sample_rate"), **pol)

    @entry("compute_antenna_responses[bad mode]", group="gw", batch=["B"], chan=["I"], time=[], expect_error=True)
    def spec1b(c):
        th, ps, ph = angles(c)
        d, _ = geom(c)
        c.begin()
        return c.call(GW + "compute_antenna_responses", th, ps, ph, d, c.list("modes", ["plus", "scalar"]))

    @entry("shift_responses", group="gw", batch=["B"], chan=["I"], time=["T"])
    def spec3(c):
        th, ps, ph = angles(c)
        _, v = geom(c)
        r = c.tensor("responses", ["B", "I", "T"], "f32")
        c.begin()
        return c.call(GW + "shift_responses", r, th, ph, v, c.real("sample_rate"))

    for ifos in (["H1"], ["H1", "L1"], ["H1", "L1", "V1", "K1"]):
        @entry("get_ifo_geometry[%s]" % ",".join(ifos), group="gw", batch=[], chan=[], time=[], host_ok=True)
        def spec4(c, ifos=ifos):
            c.begin()
            return c.call(GW + "get_ifo_geometry", *ifos)

    @entry("InterferometerGeometry[bad]", group="gw", batch=[], chan=[], time=[], expect_error=True)
    def spec5(c):
        c.begin()
        return c.new("ml4gw.utils.interferometer.InterferometerGeometry", "X9")

    for fn in ("compute_ifo_snr", "compute_network_snr", "reweight_snrs"):
        for pn in (1, 2, 3):
            for hp, lp in ((None, None), ("f", "f"), ("m", "m"), ("f", None), (None, "f")):
                for dt in ("f32", "f64"):
                    @entry("%s[psd=%dD,hp=%s,lp=%s,%s]" % (fn, pn, hp, lp, dt), group="gw", batch=["B"], chan=["I"],
                           time=["T"])
                    def spec6(c, fn=fn, pn=pn, hp=hp, lp=lp, dt=dt):
                        c.sym("F", lo=2)
                        c.sym("T", lo=2)
                        r = c.tensor("responses", ["B", "I", "T"], dt)
                        psd = c.tensor("psd", ["B", "I", "F"][3 - pn:], "f64")

                        def filt(k, nm):
                            if k is None:
                                return None
                            return c.real(nm) if k == "f" else c.tensor(nm, ["K"], "bool")
                        a = [r]
                        if fn == "reweight_snrs":
                            a.append(c.tensor("target_snrs", ["B"], "f32"))
                        h, lw = filt(hp, "highpass"), filt(lp, "lowpass")
                        c.begin()
                        return c.call(GW + fn, *(a + [psd, c.real("sample_rate"), h, lw]))

    @entry("reweight_snrs[scalar target]", group="gw", batch=["B"], chan=["I"], time=["T"])
    def spec7(c):
        r = c.tensor("responses", ["B", "I", "T"], "f32")
        psd = c.tensor("psd", ["I", "F"], "f64")
        c.begin()
        return c.call(GW + "reweight_snrs", r, c.real("target"), psd, c.real("sample_rate"))

    for fn in ("plus", "cross", "breathing", "outer"):
        @entry("gw." + fn, group="gw", batch=["B"], chan=[], time=[])
        def spec8(c, fn=fn):
            m, n = c.tensor("m", ["B", 3], "f32"), c.tensor("n", ["B", 3], "f32")
            c.begin()
            return c.call(GW + fn, m, n)


_gw()


def _slicing():
    for nd in (1, 2, 3):
        for dl in (True, False):
            @entry("unfold_windows[%dD,drop_last=%s]" % (nd, dl), group="slicing", batch=["B"], chan=["C"], time=["T"])
            def spec(c, nd=nd, dl=dl):
                x = c.tensor("x", SHAPES[nd], "f32")
                w, s = c.sym("window_size"), c.sym("stride")
                c.assume_ge("T", "window_size")
                c.begin()
                return c.call(SL + "unfold_windows", x, w, s, drop_last=dl)

    for nd, xi in ((1, 1), (2, 1), (2, 2), (3, 1), (1, 2), (2, 3), (3, 2)):
        @entry("slice_kernels[%dD,idx=%dD]" % (nd, xi), group="slicing", batch=["B", "N"], chan=["C"], time=["T"],
               expect_error=(nd, xi) in ((1, 2), (2, 3), (3, 2)))
        def spec2(c, nd=nd, xi=xi):
            x = c.tensor("x", SHAPES[nd], "f32")
            if nd == 3:
                idx = c.tensor("idx", ["B", "C"][:xi], "i64")
            else:
                idx = c.tensor("idx", ["N", "C", "Q"][:xi], "i64")
            k = c.sym("kernel_size")
            c.begin()
            return c.call(SL + "slice_kernels", x, idx, k)

    for nd in (1, 2, 3):
        for off in ("none", "pos", "neg"):
            for co in (True, False):
                for ri in (True, False):
                    @entry("sample_kernels[%dD,off=%s,coincident=%s,return_idx=%s]" % (nd, off, co, ri),
                           group="slicing", random=True, batch=["B", "N"], chan=["C"], time=["T"], windows=True)
                    def spec3(c, nd=nd, off=off, co=co, ri=ri):
                        x = c.tensor("X", SHAPES[nd], "f32")
                        k = c.sym("kernel_size")
                        n = None if nd == 3 else c.sym("N")
                        o = None if off == "none" else c.sym("max_center_offset", lo=0) if off == "pos" else \
                            c.sym("neg_offset", lo=None, hi=-1)
                        c.begin()
                        return c.call(SL + "sample_kernels", x, k, n, o, co, ri)


_slicing()
