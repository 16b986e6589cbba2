"""transforms/*"""
from . import entry, SHAPES

T = "ml4gw.transforms."
PROD = (None, "v")


def _whiten():
    for pn in (1, 2, 3):
        for crop in (True, False):
            for hp in (None, "highpass"):
                for lp in (None, "lowpass"):
                    @entry("Whiten[psd=%dD,crop=%s,%s,%s]" % (pn, crop, hp, lp), group="transforms", batch=["B"],
                           chan=["C"], time=["T", "F"], cls=T + "Whiten", module=T + "Whiten")
                    def spec(c, pn=pn, crop=crop, hp=hp, lp=lp):
                        o = c.new(T + "whitening.Whiten", c.real("fduration"), c.real("sample_rate"),
                                  c.real(hp) if hp else None, c.real(lp) if lp else None)
                        x = c.tensor("X", SHAPES[3])
                        c.sym("F", lo=2)
                        psd = c.tensor("psd", ["B", "C", "F"][3 - pn:], "f64")
                        c.publish(o)
                        c.obj = o
                        c.begin()
                        return c.call(o, x, psd, crop)


_whiten()


def _fixed():
    def make(c, n=2):
        return c.new(T + "whitening.FixedWhiten", n, c.real("kernel_length"), c.real("sample_rate"))

    for fl in (None, "fftlength"):
        for ov in (None, "overlap"):
            for hp in (None, "highpass"):
                for lp in (None, "lowpass"):
                    if fl is None and ov is not None:
                        continue

                    @entry("FixedWhiten.fit[%s,%s,%s,%s]" % (fl, ov, hp, lp), group="transforms", batch=[], chan=[],
                           time=["T1", "T2"], cls=T + "FixedWhiten", fit=True)
                    def spec(c, fl=fl, ov=ov, hp=hp, lp=lp):
                        n = 2 if (fl, ov, hp, lp) == (None,) * 4 else 1
                        o = make(c, n)
                        c.publish(o)
                        c.obj = o
                        b = [c.tensor("background%d" % i, ["T%d" % i], "f64") for i in range(1, n + 1)]
                        c.sym("T1", lo=2), c.sym("T2", lo=2)
                        c.begin()
                        return c.method(o, "fit", c.real("fduration"), *b, fftlength=c.real(fl) if fl else None,
                                        overlap=c.real(ov) if ov else None, highpass=c.real(hp) if hp else None,
                                        lowpass=c.real(lp) if lp else None)

    for crop in (True, False):
        @entry("FixedWhiten.forward[crop=%s]" % crop, group="transforms", batch=["B"], chan=["C"], time=["T"],
               cls=T + "FixedWhiten", fitted=True, module=T + "FixedWhiten")
        def spec2(c, crop=crop):
            o = c.new(T + "whitening.FixedWhiten", c.sym("C"), c.real("kernel_length"), c.real("sample_rate"))
            c.publish(o)
            c.I.setattr(o, "built", True)
            c.obj = o
            x = c.tensor("X", SHAPES[3])
            c.begin()
            return c.call(o, x, crop)

    @entry("FixedWhiten.forward[unfitted]", group="transforms", batch=["B"], chan=["C"], time=["T"],
           cls=T + "FixedWhiten", expect_error=True, unfitted=True)
    def spec3(c):
        o = c.new(T + "whitening.FixedWhiten", c.sym("C"), c.real("kernel_length"), c.real("sample_rate"))
        c.publish(o)
        c.obj = o
        x = c.tensor("X", SHAPES[3])
        c.begin()
        return c.call(o, x)

    @entry("FixedWhiten.fit[wrong number of backgrounds]", group="transforms", batch=[], chan=[], time=["T1"],
           cls=T + "FixedWhiten", expect_error=True)
    def spec4(c):
        o = make(c)
        c.publish(o)
        c.obj = o
        c.begin()
        return c.method(o, "fit", c.real("fduration"), c.tensor("background1", ["T1"], "f64"))


_fixed()


def _scaler():
    for nch in (None, "C"):
        for rev in (False, True):
            for nd in (2, 3):
                @entry("ChannelWiseScaler.forward[channels=%s,reverse=%s,%dD]" % (nch, rev, nd), group="transforms",
                       batch=["B"], chan=["C"], time=["T"], cls=T + "ChannelWiseScaler", fitted=True,
                       module=T + "ChannelWiseScaler")
                def spec(c, nch=nch, rev=rev, nd=nd):
                    o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if nch else None)
                    c.publish(o)
                    c.I.setattr(o, "built", True)
                    c.obj = o
                    x = c.tensor("X", (["B", "T"] if nch is None and nd == 2 else
                                       ["B", "C2", "T"] if nch is None else SHAPES[nd]))
                    c.begin()
                    return c.call(o, x, reverse=rev)
        for sr in (None, "std_reg"):
            @entry("ChannelWiseScaler.fit[channels=%s,%s]" % (nch, sr), group="transforms", batch=[], chan=["C"],
                   time=["T"], cls=T + "ChannelWiseScaler", fit=True)
            def spec2(c, nch=nch, sr=sr):
                o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if nch else None)
                c.publish(o)
                c.obj = o
                x = c.tensor("X", ["C", "T"] if nch else ["T"])
                c.begin()
                kw = {"std_reg": c.real("std_reg")} if sr else {}
                return c.method(o, "fit", x, **kw)

    @entry("ChannelWiseScaler.forward[unfitted]", group="transforms", batch=["B"], chan=["C"], time=["T"],
           cls=T + "ChannelWiseScaler", expect_error=True, unfitted=True)
    def spec3(c):
        o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C"))
        c.publish(o)
        c.obj = o
        x = c.tensor("X", SHAPES[3])
        c.begin()
        return c.call(o, x)

    for bad in ("3D", "channels"):
        @entry("ChannelWiseScaler.fit[bad %s]" % bad, group="transforms", batch=[], chan=[], time=["T"],
               cls=T + "ChannelWiseScaler", expect_error=True)
        def spec4(c, bad=bad):
            o = c.new(T + "scaler.ChannelWiseScaler", 3)
            c.publish(o)
            x = c.tensor("X", ["B", 3, "T"] if bad == "3D" else [2, "T"])
            c.begin()
            return c.method(o, "fit", x)


_scaler()


def _snr():
    def make(c, hp, lp, nch=2):
        return c.new(T + "snr_rescaler.SnrRescaler", nch, c.real("sample_rate"), c.real("waveform_duration"),
                     c.real("highpass") if hp else None, c.real("lowpass") if lp else None)

    for hp in (0, 1):
        for lp in (0, 1):
            for tgt in (None, "target_snrs"):
                @entry("SnrRescaler.forward[hp=%d,lp=%d,%s]" % (hp, lp, tgt), group="transforms", batch=["B"],
                       chan=["C"], time=["T"], cls=T + "SnrRescaler", fitted=True, random=tgt is None,
                       permutes=tgt is None, module=T + "SnrRescaler")
                def spec(c, hp=hp, lp=lp, tgt=tgt):
                    o = make(c, hp, lp, c.sym("C"))
                    c.publish(o)
                    c.I.setattr(o, "built", True)
                    c.obj = o
                    x = c.tensor("responses", SHAPES[3])
                    t = c.tensor("target_snrs", ["B"]) if tgt else None
                    c.begin()
                    return c.call(o, x, t)

    for fl in (None, "fftlength"):
        for ov in (None, "overlap"):
            if fl is None and ov:
                continue

            @entry("SnrRescaler.fit[%s,%s]" % (fl, ov), group="transforms", batch=[], chan=[], time=["T1", "T2"],
                   cls=T + "SnrRescaler", fit=True)
            def spec2(c, fl=fl, ov=ov):
                o = make(c, 1, 1)
                c.publish(o)
                c.obj = o
                b = [c.tensor("background%d" % i, ["T%d" % i], "f64") for i in (1, 2)]
                c.sym("T1", lo=2), c.sym("T2", lo=2)
                c.begin()
                return c.method(o, "fit", *b, fftlength=c.real(fl) if fl else None,
                                overlap=c.real(ov) if ov else None)

    @entry("SnrRescaler.forward[unfitted]", group="transforms", batch=["B"], chan=["C"], time=["T"],
           cls=T + "SnrRescaler", expect_error=True, unfitted=True)
    def spec3(c):
        o = make(c, 0, 0, c.sym("C"))
        c.publish(o)
        x = c.tensor("responses", SHAPES[3])
        c.begin()
        return c.call(o, x)

    @entry("SnrRescaler.fit[wrong number of backgrounds]", group="transforms", batch=[], chan=[], time=["T1"],
           cls=T + "SnrRescaler", expect_error=True)
    def spec4(c):
        o = make(c, 0, 0)
        c.publish(o)
        c.begin()
        return c.method(o, "fit", c.tensor("background1", ["T1"], "f64"))


_snr()


def _q():
    Q = T + "qtransform."
    for norm in ("median", "mean", None, "bogus"):
        @entry("QTile[norm=%s]" % norm, group="transforms", batch=["B"], chan=["C"], time=["T"], cls=T + "QTile",
               expect_error=norm == "bogus", module=Q + "QTile")
        def spec(c, norm=norm):
            o = c.new(Q + "QTile", 12, 64, 4, 512, 0.2)
            c.publish(o)
            c.obj = o
            x = c.tensor("fseries", ["B", "C", 4 * 512 // 2 + 1], "c64")
            c.begin()
            return c.call(o, x, norm)

    for interp in ("bilinear", "bicubic", "spline"):
        for nd in ((1, 2, 3) if interp != "spline" else (3,)):
            @entry("SingleQTransform.forward[%s,%dD]" % (interp, nd), group="transforms", batch=["B"], chan=["C"],
                   time=["T"], maxpaths=96 if interp != "spline" else 8, cls=T + "SingleQTransform", module=Q + "SingleQTransform")
            def spec2(c, interp=interp, nd=nd):
                fr = c.list("frange", [20, 200 if interp != "spline" else 32])
                o = c.new(Q + "SingleQTransform", 2, 512, c.list("spectrogram_shape", [32, 48]), q=12, frange=fr,
                          interpolation_method=interp)
                c.publish(o)
                c.obj = o
                x = c.tensor("X", (["B", "C", 1024])[3 - nd:])
                c.begin()
                return c.call(o, x)

    @entry("SingleQTransform.__init__", group="transforms", batch=[], chan=[], time=[], constructor=True,
           cls=T + "SingleQTransform")
    def spec3(c):
        fr = c.list("frange", [0, c.inf()])
        ss = c.list("spectrogram_shape", [32, 48])
        c.begin()
        return c.new(Q + "SingleQTransform", 2, 512, ss, q=12, frange=fr)

    @entry("SingleQTransform[bad interpolation]", group="transforms", batch=[], chan=[], time=[], expect_error=True,
           cls=T + "SingleQTransform")
    def spec4(c):
        return c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]), interpolation_method="cubic")

    for dim in ("both", "neither", "channel", "batch", "bogus"):
        for fs in (None, "fsearch_range"):
            @entry("SingleQTransform.get_max_energy[%s,%s]" % (dim, fs), group="transforms",
                   batch=[] if dim in ("batch", "both") else ["B"], chan=[] if dim in ("channel", "both") else ["C"],
                   time=["T"], cls=T + "SingleQTransform", expect_error=dim == "bogus", reduces=dim)
            def spec5(c, dim=dim, fs=fs):
                o = c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]), q=12,
                          frange=c.list("frange", [20, 200]))
                c.publish(o)
                c.obj = o
                x = c.tensor("X", ["B", "C", 1024])
                c.begin()
                c.method(o, "compute_qtiles", x)
                return c.method(o, "get_max_energy", c.list("fsearch", [40, 100]) if fs else None, dim)

    @entry("SingleQTransform.get_max_energy[unfitted]", group="transforms", batch=[], chan=[], time=[],
           expect_error=True, unfitted=True, cls=T + "SingleQTransform")
    def spec6(c):
        o = c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]))
        c.publish(o)
        c.begin()
        return c.method(o, "get_max_energy")

    for norm in ("median", "mean"):
        for fs in (None, "fsearch"):
            @entry("QScan.forward[norm=%s,%s]" % (norm, fs), group="transforms", batch=["B"], chan=["C"], time=["T"],
                   cls=T + "QScan", module=Q + "QScan", crossbatch="tile choice")
            def spec7(c, norm=norm, fs=fs):
                o = c.new(Q + "QScan", 2, 512, c.list("ss", [32, 48]), qrange=c.list("qrange", [8, 22]),
                          frange=c.list("frange", [20, 200]))
                c.publish(o)
                c.obj = o
                x = c.tensor("X", ["B", "C", 1024])
                c.begin()
                return c.call(o, x, fsearch_range=c.list("fsearch", [40, 100]) if fs else None, norm=norm)


_q()


def _decim():
    D = T + "decimator.Decimator"
    for split in (False, True):
        for nd in (3,):
            for nseg in (1, 2, 3):
                @entry("Decimator[split=%s,%d segments]" % (split, nseg), group="transforms", batch=["B"], chan=["C"],
                       time=["T"], cls=D, module=D, segments=nseg, split=split)
                def spec(c, split=split, nseg=nseg):
                    sched = c.tensor("schedule", [nseg, 3], "f32", device="cpu")
                    o = c.new(D, c.sym("sample_rate"), sched, split)
                    x = c.tensor("X", SHAPES[3])
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x)


_decim()


def _het():
    H = T + "heterodyne.Heterodyne"
    for rt in ("time", "freq", "both", "bogus"):
        @entry("Heterodyne[%s]" % rt, group="transforms", batch=["B"], chan=["C"], time=["T"], cls=H, module=H,
               expect_error=rt == "bogus", ext_axis=["M"])
        def spec(c, rt=rt):
            cm = c.tensor("chirp_mass", ["M"], device="cpu")
            o = c.new(H, c.sym("sample_rate", lo=2), c.sym("kernel_length", lo=1), cm, rt)
            x = c.tensor("X", ["B", "C", c.named("T", c.poly("sample_rate") * c.poly("kernel_length"))])
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, x)


_het()


def _misc():
    I = T + "iirfilter.IIRFilter"
    for wn in ("float", "tensor"):
        for nd in (2, 3):
            @entry("IIRFilter[Wn=%s,%dD]" % (wn, nd), group="transforms", batch=["B"], chan=["C"], time=["T"], cls=I,
                   module=I)
            def spec(c, wn=wn, nd=nd):
                o = c.new(I, 4, c.real("Wn") if wn == "float" else c.tensor("Wn", [2], device="cpu"),
                          btype="low" if wn == "float" else "band", fs=c.real("fs"))
                x = c.tensor("X", SHAPES[nd])
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, x)

    TI = T + "integrator.TophatIntegrator"
    @entry("TophatIntegrator", group="transforms", batch=["B"], chan=[], time=["T"], cls=TI, module=TI)
    def spec2(c):
        o = c.new(TI, c.sym("inference_sampling_rate"), c.sym("integration_length"))
        x = c.tensor("X", ["B", "T"])
        c.publish(o)
        c.obj = o
        c.begin()
        return c.call(o, x)

    LI = T + "integrator.LeakyIntegrator"
    for iv in ("count", "score", "bogus"):
        @entry("LeakyIntegrator[%s]" % iv, group="transforms", batch=["B"], chan=[], time=["T"], cls=LI, module=LI,
               expect_error=iv == "bogus")
        def spec3(c, iv=iv):
            o = c.new(LI, c.real("threshold"), c.real("decay"), c.real("lower_bound"), iv)
            x = c.tensor("X", ["B", "T"])
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, x)

    P = T + "pearson.ShiftedPearsonCorrelation"
    for nd in (1, 2, 3):
        for ynd in range(1, nd + 1):
            @entry("ShiftedPearsonCorrelation[x=%dD,y=%dD]" % (nd, ynd), group="transforms", batch=["B"], chan=["C"],
                   time=["T"], cls=P, module=P)
            def spec4(c, nd=nd, ynd=ynd):
                o = c.new(P, c.sym("max_shift"))
                x = c.tensor("x", SHAPES[nd])
                y = c.tensor("y", SHAPES[nd][nd - ynd:])
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, x, y)

    for fast in (True, False):
        for avg in ("mean", "median"):
            for win in (None, "window"):
                S = T + "spectral.SpectralDensity"
                @entry("SpectralDensity[fast=%s,%s,%s]" % (fast, avg, win), group="transforms", batch=["B"],
                       chan=["C"], time=["T"], cls=S, module=S)
                def spec5(c, fast=fast, avg=avg, win=win):
                    fl, ov, sr = c.real("fftlength"), c.real("overlap"), c.real("sample_rate")
                    w = None
                    if win:
                        from .. import algebra as A
                        from ..values import Num
                        n = A.trunc(fl.p * sr.p)
                        w = c.tensor("window", [Num(n, "int")], device="cpu")
                    o = c.new(S, sr, fl, ov, avg, window=w, fast=fast)
                    x = c.tensor("x", SHAPES[3])
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x)

    @entry("SpectralDensity[bad overlap]", group="transforms", batch=[], chan=[], time=[], expect_error=True)
    def spec6(c):
        return c.new(T + "spectral.SpectralDensity", 256, 1, 2)

    @entry("SpectralDensity[bad average]", group="transforms", batch=[], chan=[], time=[], option="average")
    def spec6b(c):
        return c.new(T + "spectral.SpectralDensity", 256, 2, 1, "bogus")


_misc()


def _spec():
    M = T + "spectrogram.MultiResolutionSpectrogram"
    for norm in (None, "given", "bad"):
        @entry("MultiResolutionSpectrogram[normalized=%s]" % norm, group="transforms", batch=["B"], chan=["C"],
               time=["T"], cls=M, module=M, expect_error=norm == "bad")
        def spec(c, norm=norm):
            kw = dict(n_fft=c.list("n_fft", [16, 24]))
            if norm:
                kw["normalized"] = c.list("normalized", [True, norm != "bad"])
            o = c.new(M, 1, 64, **kw)
            x = c.tensor("X", ["B", "C", 64])
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, x)

    @entry("MultiResolutionSpectrogram[wrong size]", group="transforms", batch=["B"], chan=["C"], time=["T"],
           expect_error=True)
    def spec2(c):
        o = c.new(M, 1, 64, n_fft=c.list("n_fft", [16, 24]))
        return c.call(o, c.tensor("X", ["B", "C", 65]))

    @entry("MultiResolutionSpectrogram[ragged lists]", group="transforms", batch=["B"], chan=["C"], time=["T"],
           expect_error=True)
    def spec3(c):
        return c.new(M, 1, 64, n_fft=c.list("n_fft", [16, 24]), hop_length=c.list("hop", [1, 2, 3]))


_spec()


def _spline():
    S1 = T + "spline_interpolation.SplineInterpolate1D"
    S2 = T + "spline_interpolation.SplineInterpolate2D"
    for nd in (1, 2, 3, 4):
        for where in ("init", "call", "both"):
            sh = ["B", "C", "H", "W"] if nd == 4 else ["B", "C", "W"][3 - nd:]

            @entry("SplineInterpolate1D[%dD,x_out at %s]" % (nd, where), group="transforms", batch=["B"], chan=["C"],
                   time=["W", "H"], cls=S1, module=S1)
            def spec(c, nd=nd, where=where, sh=sh):
                c.sym("W", lo=5)
                c.sym("Xo", lo=1), c.sym("Xo2", lo=1)
                xi = c.tensor("x_in", ["W"], device="cpu")
                xo = c.tensor("x_out", ["Xo"], device="cpu") if where != "call" else None
                o = c.new(S1, xi, 3, c.real("sx"), xo)
                z = c.tensor("Z", sh)
                x2 = c.tensor("x_out_call", ["Xo2"]) if where != "init" else None
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, z, x2)
    for nd in (2, 3, 4):
        for where in ("init", "call"):
            sh = ["B", "C", "H", "W"][4 - nd:]

            @entry("SplineInterpolate2D[%dD,out at %s]" % (nd, where), group="transforms", batch=["B"], chan=["C"],
                   time=["W", "H"], cls=S2, module=S2)
            def spec2(c, nd=nd, where=where, sh=sh):
                c.sym("W", lo=5), c.sym("H", lo=5)
                for n in ("Xo", "Xo2", "Yo", "Yo2"):
                    c.sym(n, lo=1)
                xi, yi = c.tensor("x_in", ["W"], device="cpu"), c.tensor("y_in", ["H"], device="cpu")
                xo = c.tensor("x_out", ["Xo"], device="cpu") if where != "call" else None
                yo = c.tensor("y_out", ["Yo"], device="cpu") if where != "call" else None
                o = c.new(S2, xi, yi, 3, 3, c.real("sx"), c.real("sy"), xo, yo)
                z = c.tensor("Z", sh)
                x2 = c.tensor("x_out_call", ["Xo2"]) if where != "init" else None
                y2 = c.tensor("y_out_call", ["Yo2"]) if where != "init" else None
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, z, x2, y2)

    @entry("SplineInterpolate1D[no output coordinates]", group="transforms", batch=[], chan=[], time=[], expect_error=True)
    def spec3(c):
        c.sym("W", lo=5)
        o = c.new(S1, c.tensor("x_in", ["W"], device="cpu"))
        return c.call(o, c.tensor("Z", ["B", "C", "W"]))

    @entry("SplineInterpolate1D[data longer than x_in]", group="transforms", batch=[], chan=[], time=[], expect_error=True)
    def spec4(c):
        c.sym("W", lo=5)
        o = c.new(S1, c.tensor("x_in", ["W"], device="cpu"), x_out=c.tensor("xo", ["Xo"], device="cpu"))
        from ..values import Num
        return c.call(o, c.tensor("Z", ["B", "C", Num(c.poly("W") + 1, "int")]))


_spline()


def _wave():
    W = T + "waveforms.WaveformSampler"
    for par in (None, "parameters"):
        @entry("WaveformSampler[%s]" % par, group="transforms", batch=["NW"], chan=[], time=["T"], cls=W, module=W,
               random=True)
        def spec(c, par=par):
            p = c.tensor("parameters", ["NW", "P"]) if par else None
            o = c.new(W, p, plus=c.tensor("plus", ["NW", "T"]), cross=c.tensor("cross", ["NW", "T"]))
            n = c.sym("N", lo=1)
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, n)

        @entry("WaveformSampler[%s,all]" % par, group="transforms", batch=["NW"], chan=[], time=["T"], cls=W,
               module=W)
        def spec1(c, par=par):
            p = c.tensor("parameters", ["NW", "P"]) if par else None
            o = c.new(W, p, plus=c.tensor("plus", ["NW", "T"]), cross=c.tensor("cross", ["NW", "T"]))
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, -1)

    P = T + "waveforms.WaveformProjector"
    @entry("WaveformProjector", group="transforms", batch=["B"], chan=[], time=["T"], cls=P, module=P)
    def spec2(c):
        o = c.new(P, c.list("ifos", ["H1", "L1"]), c.real("sample_rate"))
        a = [c.tensor(n, ["B"]) for n in ("dec", "psi", "phi")]
        pols = {k: c.tensor(k, ["B", "T"]) for k in ("plus", "cross")}
        c.publish(o)
        c.obj = o
        c.begin()
        return c.call(o, *a, **pols)


_wave()
