"""Datasets, augmentations, distributions, streaming."""
from . import entry, SHAPES

DL = "ml4gw.dataloading."
DIST = "ml4gw.distributions."


def _inmem():
    for bpe in (None, "P"):
        for co in (True, False):
            for sh in (True, False):
                for y in (None, "y"):
                    bad = (not co) and (bpe is None or y is not None)

                    @entry("InMemoryDataset[bpe=%s,coincident=%s,shuffle=%s,y=%s]" % (bpe, co, sh, y),
                           group="dataloading", random=True, batch=["N"], chan=["C"], time=["T"], dataset=True,
                           windows=True, expect_error=bad, cls=DL + "in_memory_dataset.InMemoryDataset",
                           determinate=not sh)
                    def spec(c, bpe=bpe, co=co, sh=sh, y=y):
                        x = c.tensor("X", ["C", "T"], "f32", device="cpu")
                        k, b, s = c.sym("kernel_size"), c.sym("batch_size"), c.sym("stride")
                        c.assume_ge("T", "kernel_size")
                        n = None if bpe is None else c.sym("batches_per_epoch")
                        yy = None if y is None else c.tensor("y", ["T"], "f32", device="cpu")
                        o = c.new(DL + "in_memory_dataset.InMemoryDataset", x, k, y=yy, batch_size=b, stride=s,
                                  batches_per_epoch=n, coincident=co, shuffle=sh, device=c.device("D"))
                        c.publish(o, "self", device=None)
                        c.obj = o
                        c.begin()
                        c.length = c.len(o)
                        return c.iterate(o)


_inmem()


def _chunked():
    for co in (True, False):
        for hist in ("one", "same", "different"):
            @entry("ChunkedTimeSeriesDataset[coincident=%s,chunks=%s]" % (co, hist), group="dataloading", random=True,
                   batch=["batch_size"], chan=["C"], time=["T"], dataset=True, windows=True,
                   cls=DL + "chunked_dataset.ChunkedTimeSeriesDataset")
            def spec(c, co=co, hist=hist):
                ch = [c.tensor("chunk1", ["K1", "C", "T1"], "f32", device="cpu")]
                if hist == "same":
                    ch.append(c.tensor("chunk2", ["K1", "C", "T1"], "f32", device="cpu"))
                elif hist == "different":
                    ch.append(c.tensor("chunk2", ["K2", "C2", "T2"], "f32", device="cpu"))
                it = c.list("chunk_it", ch)
                o = c.new(DL + "chunked_dataset.ChunkedTimeSeriesDataset", it, c.sym("kernel_size"),
                          c.sym("batch_size"), c.sym("batches_per_chunk"), coincident=co, device=c.device("D"))
                c.publish(o, "self", device=None)
                c.obj = o
                c.begin()
                c.length = c.len(o)
                return c.iterate(o)


_chunked()


def _hdf5():
    for co in (True, False, "files"):
        for nf in (None, "Q"):
            @entry("Hdf5TimeSeriesDataset[coincident=%s,num_files=%s]" % (co, nf), group="dataloading", random=True,
                   batch=["batch_size"], chan=[], time=["T"], dataset=True, windows=True, host=True,
                   cls=DL + "hdf5_dataset.Hdf5TimeSeriesDataset")
            def spec(c, co=co, nf=nf):
                fn = c.list("fnames", ["a.h5", "b.h5"])
                chs = c.list("channels", ["H1", "L1"])
                o = c.new(DL + "hdf5_dataset.Hdf5TimeSeriesDataset", fn, chs, c.sym("kernel_size"),
                          c.sym("batch_size"), c.sym("batches_per_epoch"), co,
                          None if nf is None else c.sym("num_files", hi=2))
                c.publish(o, "self", device=None)
                c.obj = o
                c.begin()
                c.length = c.len(o)
                return c.iterate(o)

    @entry("Hdf5TimeSeriesDataset[bad coincident]", group="dataloading", expect_error=True, batch=[], chan=[], time=[])
    def spec2(c):
        return c.new(DL + "hdf5_dataset.Hdf5TimeSeriesDataset", c.list("fnames", ["a.h5"]), c.list("ch", ["H1"]),
                     c.sym("kernel_size"), c.sym("batch_size"), c.sym("bpe"), "file")


_hdf5()


def _aug():
    for cls in ("SignalInverter", "SignalReverser"):
        for nd in (1, 2, 3):
            @entry("%s[%dD]" % (cls, nd), group="augmentations", random=True, batch=["B"], chan=["C"], time=["T"],
                   module="ml4gw.augmentations." + cls)
            def spec(c, cls=cls, nd=nd):
                o = c.new("ml4gw.augmentations." + cls, c.real("prob"))
                x = c.tensor("X", SHAPES[nd], "f32")
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, x)


_aug()


def _dist():
    def make(c, cls, dev="D"):
        lo = c.scalar("low", device=dev)
        hi = c.scalar("high", device=dev)
        if cls in ("Cosine", "Sine", "LogUniform"):
            return c.new(DIST + cls, lo, hi)
        if cls == "LogNormal":
            return c.new(DIST + cls, c.scalar("mean", device=dev), c.scalar("std", device=dev), c.real("lowest"))
        if cls == "DeltaFunction":
            return c.new(DIST + cls, lo)
        raise KeyError(cls)

    for cls in ("Cosine", "Sine", "LogUniform", "LogNormal", "DeltaFunction"):
        for op in ("sample", "rsample", "log_prob"):
            if cls == "DeltaFunction" and op == "log_prob":
                continue

            @entry("%s.%s" % (cls, op), group="distributions", random=op != "log_prob", batch=["N"], chan=[], time=[],
                   dist=DIST + cls)
            def spec(c, cls=cls, op=op):
                o = make(c, cls)
                c.publish(o, "self", device=None)
                c.obj = o
                c.begin()
                if op == "log_prob":
                    return c.method(o, op, c.tensor("value", ["N"], "f32"))
                return c.method(o, op, (c.sym("N"),))

    for idx in ("i", 0, -1, 2, -3):
        for op in ("rsample", "log_prob"):
            @entry("PowerLaw[index=%s].%s" % (idx, op), group="distributions", random=op != "log_prob", batch=["N"],
                   chan=[], time=[], expect_error=idx == 0, dist=DIST + "PowerLaw")
            def spec2(c, idx=idx, op=op):
                o = c.new(DIST + "PowerLaw", c.scalar("minimum"), c.scalar("maximum"),
                          c.real("index") if idx == "i" else idx)
                c.publish(o, "self", device=None)
                c.begin()
                if op == "log_prob":
                    return c.method(o, op, c.tensor("value", ["N"], "f32"))
                return c.method(o, op, (c.sym("N"),))

    for cls in ("UniformComovingVolume", "RateEvolution"):
        for dt in ("redshift", "comoving_distance", "luminosity_distance", "bad"):
            for op in ("rsample", "log_prob"):
                @entry("%s[%s].%s" % (cls, dt, op), group="distributions", random=op != "log_prob", batch=["N"],
                       chan=[], time=[], expect_error=dt == "bad", dist=DIST + cls)
                def spec3(c, cls=cls, dt=dt, op=op):
                    a = [c.callback("rate_function")] if cls == "RateEvolution" else []
                    o = c.new(DIST + cls, *(a + [c.scalar("minimum"), c.scalar("maximum"), dt]),
                              h0=c.real("h0"), omega_m=c.real("omega_m"), z_grid_max=c.real("z_grid_max"),
                              grid_size=c.sym("grid_size", lo=3))
                    c.publish(o, "self", device=None)
                    c.begin()
                    if op == "log_prob":
                        return c.method(o, op, c.tensor("value", ["N"], "f32"))
                    return c.method(o, op, (c.sym("N"),))


_dist()
