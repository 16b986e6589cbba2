"""Operations paired with a reference program of sa/refs: entry value = (outcome, expected outcome)."""
from . import entry, SHAPES

T = "ml4gw.transforms."


def pair(name, prop, **tags):
    """Register a paired entry point, compared under the given property."""
    def deco(f):
        from .. import spec as S
        n = "pair:" + name
        entry(n, pair=True, group="pair", batch=[], chan=[], time=[], **tags)(f)
        return f
    return deco


def _whiten():
    for hp in (None, "highpass"):
        for lp in (None, "lowpass"):
            for crop in (True, False):
                for pn in (1, 3):
                    @pair("P15:Whiten[psd=%dD,crop=%s,%s,%s]" % (pn, crop, hp, lp), "P15")
                    def spec(c, hp=hp, lp=lp, crop=crop, pn=pn):
                        fd, sr = c.real("fduration"), c.real("sample_rate")
                        h, l = c.real(hp) if hp else None, c.real(lp) if lp else None
                        o = c.new(T + "whitening.Whiten", fd, sr, h, l)
                        x = c.tensor("X", SHAPES[3])
                        c.sym("F", lo=2)
                        psd = c.tensor("psd", ["B", "C", "F"][3 - pn:], "f64")
                        c.publish(o)
                        return c.pair(lambda: c.call(o, x, psd, crop),
                                      lambda: c.ref("transforms.whiten_module", fd, sr, h, l, x, psd, crop))


_whiten()


def _fixed():
    for fl, ov in ((None, None), ("fftlength", None), ("fftlength", "overlap"), ("fftlength", 0)):
        for hp in (None, "highpass"):
            for lp in (None, "lowpass"):
                if fl and not (hp and lp):
                    continue
                for n, nb in ((2, 2), (2, 1)):
                    if nb != n and (fl or hp or lp):
                        continue

                    @pair("P15:FixedWhiten.fit[%s,%s,%s,%s,%d of %d]" % (fl, ov, hp, lp, nb, n), "P15")
                    def spec(c, fl=fl, ov=ov, hp=hp, lp=lp, n=n, nb=nb):
                        kl, sr, fd = c.real("kernel_length"), c.real("sample_rate"), c.real("fduration")
                        o = c.new(T + "whitening.FixedWhiten", n, kl, sr)
                        c.publish(o)
                        b = [c.tensor("background%d" % i, ["T%d" % i], "f64") for i in range(1, nb + 1)]
                        c.sym("T1", lo=2), c.sym("T2", lo=2)
                        f = c.real(fl) if fl else None
                        v = c.real(ov) if ov else ov
                        h, l = c.real(hp) if hp else None, c.real(lp) if lp else None

                        def subject():
                            c.method(o, "fit", fd, *b, fftlength=f, overlap=v, highpass=h, lowpass=l)
                            return (o.attrs["psd"], o.attrs["fduration"])
                        return c.pair(subject, lambda: c.ref("transforms.fixed_whiten_fit", n, kl, sr, fd,
                                                             c.list("b", b), f, v, h, l))
    for crop in (True, False):
        @pair("P15:FixedWhiten.forward[crop=%s]" % crop, "P15")
        def spec2(c, crop=crop):
            kl, sr = c.real("kernel_length"), c.real("sample_rate")
            o = c.new(T + "whitening.FixedWhiten", c.sym("C"), kl, sr)
            c.publish(o)
            c.method(o, "build", psd=c.tensor("fitted_psd", ["C", o.attrs["psd"].shape[1].p]),
                     fduration=c.tensor("fitted_fduration", [1]))
            x = c.tensor("X", SHAPES[3])
            p, f = o.attrs["psd"], o.attrs["fduration"]
            return c.pair(lambda: c.call(o, x, crop),
                          lambda: c.ref("transforms.fixed_whiten_forward", kl, sr, p, f, x, crop))


_fixed()


def _scaler():
    for nch in (None, "C"):
        for sr in (None, "std_reg"):
            @pair("P15:ChannelWiseScaler.fit[channels=%s,%s]" % (nch, sr), "P15")
            def spec(c, nch=nch, sr=sr):
                o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if nch else None)
                c.publish(o)
                x = c.tensor("X", ["C", "T"] if nch else ["T"])
                kw = {"std_reg": c.real("std_reg")} if sr else {}

                def subject():
                    c.method(o, "fit", x, **kw)
                    return (o.attrs["mean"], o.attrs["std"])
                return c.pair(subject, lambda: c.ref("transforms.scaler_fit", x, None, kw.get("std_reg", 0)))
        for rev in (False, True):
            for nd in (1, 2, 3):
                if nch and nd == 1:
                    continue

                @pair("P15:ChannelWiseScaler.forward[channels=%s,reverse=%s,%dD]" % (nch, rev, nd), "P15")
                def spec2(c, nch=nch, rev=rev, nd=nd):
                    o = c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if nch else None)
                    c.publish(o)
                    sh = ["C", 1] if nch else [1]
                    c.method(o, "build", mean=c.tensor("fitted_mean", sh), std=c.tensor("fitted_std", sh))
                    x = c.tensor("X", SHAPES[nd])
                    m, s = o.attrs["mean"], o.attrs["std"]
                    return c.pair(lambda: c.call(o, x, reverse=rev),
                                  lambda: c.ref("transforms.scaler_forward", x, m, s, rev))

    @pair("P15:ChannelWiseScaler.fit[3D]", "P15")
    def spec3(c):
        o = c.new(T + "scaler.ChannelWiseScaler", 3)
        x = c.tensor("X", ["B", 3, "T"])
        return c.pair(lambda: c.method(o, "fit", x), lambda: c.ref("transforms.scaler_fit", x, None, 0))


_scaler()


def _snr():
    for fl, ov in ((None, None), ("fftlength", None), ("fftlength", "overlap"), ("fftlength", 0)):
        for n, nb in ((2, 2), (2, 1)):
            if nb != n and fl:
                continue

            @pair("P15:SnrRescaler.fit[%s,%s,%d of %d]" % (fl, ov, nb, n), "P15")
            def spec(c, fl=fl, ov=ov, n=n, nb=nb):
                sr, wd = c.real("sample_rate"), c.real("waveform_duration")
                o = c.new(T + "snr_rescaler.SnrRescaler", n, sr, wd, c.real("highpass"))
                c.publish(o)
                b = [c.tensor("background%d" % i, ["T%d" % i], "f64") for i in range(1, nb + 1)]
                c.sym("T1", lo=2), c.sym("T2", lo=2)
                f = c.real(fl) if fl else None
                v = c.real(ov) if ov else ov

                def subject():
                    c.method(o, "fit", *b, fftlength=f, overlap=v)
                    return o.attrs["background"]
                return c.pair(subject, lambda: c.ref("transforms.snr_fit", n, sr, wd, c.list("b", b), f, v))
    for hp in (0, 1):
        for lp in (0, 1):
            for tgt in (None, "target_snrs"):
                @pair("P15:SnrRescaler.forward[hp=%d,lp=%d,%s]" % (hp, lp, tgt), "P15")
                def spec2(c, hp=hp, lp=lp, tgt=tgt):
                    sr, wd = c.real("sample_rate"), c.real("waveform_duration")
                    h, l = c.real("highpass") if hp else None, c.real("lowpass") if lp else None
                    o = c.new(T + "snr_rescaler.SnrRescaler", c.sym("C"), sr, wd, h, l)
                    c.publish(o)
                    c.method(o, "build", background=c.tensor("fitted_psd", ["C", o.attrs["background"].shape[1].p]))
                    x = c.tensor("responses", SHAPES[3])
                    t = c.tensor("target_snrs", ["B"]) if tgt else None
                    b = o.attrs["background"]
                    return c.pair(lambda: c.call(o, x, t),
                                  lambda: c.ref("transforms.snr_forward", sr, wd, h, l, b, x, t))


_snr()


def _density():
    S = T + "spectral.SpectralDensity"
    for fast in (True, False):
        for avg in ("mean", "median"):
            for ov in (None, "overlap"):
                for y in (None, 2, 3):
                    @pair("P15:SpectralDensity[fast=%s,%s,overlap=%s,y=%s]" % (fast, avg, ov, y), "P15")
                    def spec(c, fast=fast, avg=avg, ov=ov, y=y):
                        fl, v, sr = c.real("fftlength"), c.real(ov) if ov else None, c.real("sample_rate")
                        x = c.tensor("x", SHAPES[3])
                        yy = None if y is None else c.tensor("y", ["B", "C", "T"] if y == 3 else ["B", "T"])

                        def subject():
                            o = c.new(S, sr, fl, v, avg, fast=fast)
                            return c.call(o, x, yy)
                        return c.pair(subject, lambda: c.ref("transforms.density_module", sr, fl, v, avg, None, fast, x, yy))


_density()
