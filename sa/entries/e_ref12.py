"""Paired entry points: which inputs operations accept."""
from .e_ref import pair

SP = "ml4gw.spectral."


def _accepted():
    dims = {1: ["T"], 2: ["C", "T"], 3: ["B", "C", "T"], 4: ["A", "B", "C", "T"]}
    other = {1: ["T2"], 2: ["C2", "T2"], 3: ["B2", "C2", "T2"], 4: ["A2", "B2", "C2", "T2"]}

    def setup(c, nd, ynd):
        x = c.tensor("x", dims[nd], "f64")
        y = None if ynd is None else c.tensor("y", other[ynd], "f64")
        n, s = c.named("nperseg", 2 * c.poly(c.sym("M", lo=2))), c.sym("nstride", lo=1)
        return x, y, n, s, c.tensor("window", [n], "f64")

    for nd in (1, 2, 3, 4):
        @pair("P13:spectral_density[accepts %dD]" % nd, "P13")
        def spec(c, nd=nd):
            x, _, n, s, w = setup(c, nd, None)

            def subject():
                c.call(SP + "spectral_density", x, n, s, w, c.real("scale"))
                return True
            return c.pair(subject, lambda: c.ref("spectral.accepts", x, None, n))

        for ynd in (None, 1, 2, 3, 4):
            @pair("P13:fast_spectral_density[accepts %dD with %s]" % (nd, ynd), "P13")
            def spec2(c, nd=nd, ynd=ynd):
                x, y, n, s, w = setup(c, nd, ynd)

                def subject():
                    c.call(SP + "fast_spectral_density", x, n, s, w, c.real("scale"), y=y)
                    return True
                return c.pair(subject, lambda: c.ref("spectral.accepts", x, y, n))


_accepted()


SL = "ml4gw.utils.slicing."


def _windows():
    dims = {1: ["T"], 2: ["C", "T"], 3: ["B", "C", "T"], 4: ["A", "B", "C", "T"]}
    for nd in (1, 2, 3, 4):
        for xi in (0, 1, 2, 3):
            @pair("P07:slice_kernels[accepts %dD at %dD]" % (nd, xi), "P07")
            def spec(c, nd=nd, xi=xi):
                x = c.tensor("x", dims[nd], "f32")
                idx = c.tensor("idx", ["N", "C2", "Q"][:xi], "i64")
                k = c.sym("kernel_size", lo=1)

                def subject():
                    c.call(SL + "slice_kernels", x, idx, k)
                    return True
                return c.pair(subject, lambda: c.ref("slicing.slices", x, idx))

        for off in ("none", "zero", "pos", "neg"):
            for num in ("none", "N", "B"):
                if num == "B" and nd != 3:
                    continue
                for short in (True, False):
                    @pair("P07:sample_kernels[accepts %dD,%s,N=%s,%s]" % (nd, off, num, "short" if short else "long"), "P07")
                    def spec2(c, nd=nd, off=off, num=num, short=short):
                        k, d = c.sym("kernel_size", lo=1), c.sym("excess", lo=1)
                        t = c.poly(k) - c.poly(d) if short else c.poly(k) + c.poly(d)
                        x = c.tensor("X", dims[nd][:-1] + [t], "f32")
                        n = {"none": None, "N": c.sym("N", lo=1), "B": c.sym("B", lo=1)}[num]
                        o = {"none": None, "zero": 0, "pos": c.sym("offset", lo=0), "neg": c.sym("negative", lo=None, hi=-1)}[off]

                        def subject():
                            c.call(SL + "sample_kernels", x, k, n, o)
                            return True
                        return c.pair(subject, lambda: c.ref("slicing.samples", x, k, n, o))


_windows()


def _files():
    for co in (True, False, "files", "file", 1.0, None):
        for nf in (None, "num_files"):
            @pair("P08:Hdf5TimeSeriesDataset[accepts %s,%s]" % (co, nf), "P08")
            def spec(c, co=co, nf=nf):
                fn, chs = c.list("fnames", ["a.h5", "b.h5"]), c.list("channels", ["H1", "L1"])
                n = c.sym("num_files", lo=1) if nf else None

                def subject():
                    c.new("ml4gw.dataloading.hdf5_dataset.Hdf5TimeSeriesDataset", fn, chs, c.sym("kernel_size"),
                          c.sym("batch_size"), c.sym("batches"), co, n)
                    return True
                return c.pair(subject, lambda: c.ref("accepts.files", co, n, 2))


_files()


def _whitens():
    for window in (False, True):
        for crop in (False, True):
            @pair("P14:whiten[accepts,window=%s,crop=%s]" % (window, crop), "P14")
            def spec(c, window=window, crop=crop):
                p = c.sym("pad", lo=1)
                T = c.named("T", 2 * c.poly(c.sym("M", lo=2)))
                x, psd = c.tensor("X", ["B", "C", T], "f64"), c.tensor("psd", ["F"], "f64")
                fd = c.tensor("window", [2 * c.poly(p)], "f64") if window else c.real("fduration")
                sr = c.real("sample_rate")
                if not window:
                    p = c.ref("accepts.pad", fd, sr)

                def subject():
                    c.call(SP + "whiten", x, psd, fd, sr, crop=crop)
                    return True
                return c.pair(subject, lambda: c.ref("accepts.whitens", T, p))


_whitens()
