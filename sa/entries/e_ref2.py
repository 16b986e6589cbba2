"""Paired entry points of the Q transform."""
from .e_ref import pair
from . import SHAPES

Q = "ml4gw.transforms.qtransform."


def _tile():
    for norm in ("median", "mean", None, "bogus"):
        for nd in (1, 2, 3, 4):
            if norm in ("mean", "bogus") and nd != 3:
                continue

            @pair("P16:QTile[norm=%s,%dD]" % (norm, nd), "P16")
            def spec(c, norm=norm, nd=nd):
                q, f = c.real("q"), c.real("frequency")
                d, sr, mm = c.real("duration"), c.real("sample_rate"), c.real("mismatch")
                o = c.new(Q + "QTile", q, f, d, sr, mm)
                c.publish(o)
                x = c.tensor("fseries", (["A", "B", "C", "F"])[4 - nd:], "c64")
                return c.pair(lambda: c.call(o, x, norm), lambda: c.ref("qtransform.tile", q, f, d, sr, mm, x, norm))


_tile()


def _single():
    @pair("P16:frequencies", "P16")
    def freqs(c):
        o = c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]), q=12, frange=c.list("frange", [20, 32]))
        q, d, mm, lo, hi = (c.real(x) for x in ("q", "duration", "mismatch", "f_low", "f_high"))
        for k, v in (("q", q), ("duration", d), ("mismatch", mm), ("frange", c.list("range", [lo, hi]))):
            c.I.setattr(o, k, v)
        return c.pair(lambda: c.method(o, "get_freqs"), lambda: c.ref("qtransform.frequencies", q, d, mm, lo, hi))

    for lo in (0, "low", -1):
        for hi in ("inf", "high"):
            @pair("P16:range[%s,%s]" % (lo, hi), "P16")
            def rng(c, lo=lo, hi=hi):
                fr = c.list("frange", [c.real("low") if lo == "low" else lo, c.inf() if hi == "inf" else c.real("high")])

                def subject():
                    o = c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]), q=12, frange=fr)
                    return tuple(o.attrs["frange"].items)
                return c.pair(subject, lambda: c.ref("qtransform.frequency_range", 12, 2, 512, fr))

    for q in (12, 100):
        for m in ("bilinear", "bicubic", "spline", "cubic"):
            if q == 100 or m == "cubic":
                @pair("P16:rejects[q=%s,%s]" % (q, m), "P16")
                def bad(c, q=q, m=m):
                    ss = c.list("ss", [32, 48])
                    fr = c.list("frange", [20, 32])
                    return c.pair(lambda: c.new(Q + "SingleQTransform", 2, 512, ss, q=q, frange=fr, interpolation_method=m) and None,
                                  lambda: c.ref("qtransform.check", q, 2, 512, m))

    for m in ("bilinear", "bicubic", "spline"):
        for norm in ("median", "mean", None):
            for nd, dims in ((1, ()), (2, ("C",)), (2, (1,)), (3, ("B", "C")), (3, (1, "C")), (3, ("B", 1))):
                if nd != 3 and norm or 1 in dims and norm:
                    continue

                @pair("P16:SingleQTransform[%s,norm=%s,%dD %s]" % (m, norm, nd, ",".join(map(str, dims))), "P16")
                def spec(c, m=m, norm=norm, dims=dims):
                    ss, fr = c.list("ss", [32, 48]), c.list("frange", [20, 32])
                    o = c.new(Q + "SingleQTransform", 2, 512, ss, q=12, frange=fr, interpolation_method=m)
                    c.publish(o)
                    x = c.tensor("X", list(dims) + [1024])
                    fr2 = c.list("frange2", [20, 32])
                    return c.pair(lambda: c.call(o, x, norm), lambda: c.ref("qtransform.q_transform", 12, 2, 512, 0.2, fr2, ss, m, x, norm))

    for dim in ("both", "neither", "channel", "batch", "bogus"):
        for fs in (None, "search"):
            @pair("P16:max_energy[%s,%s]" % (dim, fs), "P16")
            def energy(c, dim=dim, fs=fs):
                o = c.new(Q + "SingleQTransform", 2, 512, c.list("ss", [32, 48]), q=12, frange=c.list("frange", [20, 32]))
                c.publish(o)
                c.method(o, "compute_qtiles", c.tensor("X", ["B", "C", 1024]))
                rg = c.list("fsearch", [24, 28]) if fs else None
                ts, fq = o.attrs["qtiles"], o.attrs["freqs"]
                return c.pair(lambda: c.method(o, "get_max_energy", rg, dim),
                              lambda: c.ref("qtransform.max_energy", ts, fq, rg, dim))

    @pair("P16:planes", "P16")
    def planes(c):
        o = c.new(Q + "QScan", 2, 512, c.list("ss", [32, 48]), qrange=c.list("qrange", [8, 22]), frange=c.list("frange", [20, 32]))
        r = c.list("range", [c.real("q_low"), c.real("q_high")])
        mm = c.real("mismatch")
        c.I.setattr(o, "qrange", r)
        c.I.setattr(o, "mismatch", mm)
        return c.pair(lambda: c.method(o, "get_qs"), lambda: c.ref("qtransform.q_planes", r, mm))


_single()


def _scan():
    for m in ("bilinear", "bicubic", "spline"):
        for norm in ("median", "mean"):
            for fs in (None, "search"):
                @pair("P16:QScan[%s,%s,%s]" % (m, norm, fs), "P16")
                def spec(c, m=m, norm=norm, fs=fs):
                    ss, fr, qr = c.list("ss", [32, 48]), c.list("frange", [20, 32]), c.list("qrange", [8, 14])
                    x = c.tensor("X", ["B", "C", 1024])
                    rg = c.list("fsearch", [24, 28]) if fs else None
                    o = c.new(Q + "QScan", 2, 512, ss, qrange=qr, frange=fr, interpolation_method=m)
                    c.publish(o)
                    return c.pair(lambda: c.call(o, x, fsearch_range=rg, norm=norm),
                                  lambda: c.ref("qtransform.q_scan", qr, 2, 512, 0.2, fr, ss, m, x, rg, norm))


_scan()
