"""Paired entry points of the remaining transforms."""
from . import SHAPES
from .e_ref import pair

T = "ml4gw.transforms."


def _het():
    for rt in ("time", "freq", "both", "bogus"):
        @pair("P18:Heterodyne[%s]" % rt, "P18")
        def spec(c, rt=rt):
            sr, kl = c.sym("sample_rate"), c.sym("kernel_length")
            cm = c.tensor("chirp_mass", ["M"])
            x = c.tensor("X", SHAPES[3])
            c.assume_eq(c.sym("T"), sr.p * kl.p)
            return c.pair(lambda: c.call(c.new(T + "heterodyne.Heterodyne", sr, kl, cm, rt), x),
                          lambda: c.ref("filters.heterodyne", sr, kl, cm, rt, x))


_het()


def _decim():
    for split in (False, True):
        for nseg in (1, 2, 3):
            @pair("P18:Decimator[split=%s,%d segments]" % (split, nseg), "P18")
            def spec(c, split=split, nseg=nseg):
                sr = c.sym("sample_rate")
                sched = c.tensor("schedule", [nseg, 3])
                x = c.tensor("X", SHAPES[3])
                return c.pair(lambda: c.call(c.new(T + "decimator.Decimator", sr, sched, split), x),
                              lambda: c.ref("filters.decimate", sr, sched, split, x))

    for dims in ([3], [2, 4], [2, 2], [1, 2, 3], [2, 3, 3]):
        for split in (False, True):
            @pair("P18:Decimator[schedule %s,split=%s]" % (dims, split), "P18")
            def spec2(c, dims=dims, split=split):
                sr, sched = c.sym("sample_rate"), c.tensor("schedule", dims)
                x = c.tensor("X", SHAPES[3])
                return c.pair(lambda: c.call(c.new(T + "decimator.Decimator", sr, sched, split), x),
                              lambda: c.ref("filters.no_schedule"))


_decim()


def _misc():
    for btype, wn, ftype in (("low", "float", "butter"), ("band", "tensor", "cheby1"), ("high", "float", "ellip")):
        for nd in (1, 3):
            @pair("P18:IIRFilter[%s,%s,%dD]" % (btype, ftype, nd), "P18")
            def spec(c, btype=btype, wn=wn, ftype=ftype, nd=nd):
                w = c.real("Wn") if wn == "float" else c.tensor("Wn", [2])
                rs = c.real("rs") if wn == "float" else c.tensor("rs", [])
                rp = c.real("rp") if wn == "float" else c.tensor("rp", [])
                fs = c.real("fs")
                x = c.tensor("X", SHAPES[nd])
                return c.pair(lambda: c.call(c.new(T + "iirfilter.IIRFilter", 4, w, rs, rp, btype, False, ftype, fs), x),
                              lambda: c.ref("filters.iir", 4, w, rs, rp, btype, False, ftype, fs, x))

    for nd in (1, 2, 3):
        @pair("P18:TophatIntegrator[%dD]" % nd, "P18")
        def spec2(c, nd=nd):
            sr, n = c.sym("inference_sampling_rate"), c.sym("integration_length")
            x = c.tensor("X", SHAPES[nd])
            return c.pair(lambda: c.call(c.new(T + "integrator.TophatIntegrator", sr, n), x),
                          lambda: c.ref("filters.tophat", sr, n, x))

    for iv in ("count", "score", "bogus"):
        for nd in (1, 2, 3):
            if iv == "bogus" and nd > 1:
                continue

            @pair("P18:LeakyIntegrator[%s,%dD]" % (iv, nd), "P18")
            def spec3(c, iv=iv, nd=nd):
                t, d, b = c.real("threshold"), c.real("decay"), c.real("lower_bound")
                x = c.tensor("X", SHAPES[nd])
                return c.pair(lambda: c.call(c.new(T + "integrator.LeakyIntegrator", t, d, b, iv), x),
                              lambda: c.ref("filters.leaky", t, d, b, iv, x))

    for nd in (1, 2, 3, 4):
        for ynd in range(1, min(nd + 2, 5)):
            @pair("P18:ShiftedPearsonCorrelation[%dD,%dD]" % (nd, ynd), "P18")
            def spec4(c, nd=nd, ynd=ynd):
                s = c.sym("max_shift")
                x = c.tensor("x", ["A", "B", "C", "T"][4 - nd:])
                y = c.tensor("y", ["A", "B", "C", "T"][4 - ynd:])
                return c.pair(lambda: c.call(c.new(T + "pearson.ShiftedPearsonCorrelation", s), x, y),
                              lambda: c.ref("filters.pearson", s, x, y))
    for sh in (["B", "C", "U"], ["B", "K", "T"]):
        @pair("P18:ShiftedPearsonCorrelation[mismatched %s]" % sh[2], "P18")
        def spec5(c, sh=sh):
            s = c.sym("max_shift")
            x, y = c.tensor("x", SHAPES[3]), c.tensor("y", sh)
            return c.pair(lambda: c.call(c.new(T + "pearson.ShiftedPearsonCorrelation", s), x, y),
                          lambda: c.ref("filters.pearson", s, x, y))


_misc()


def _multi():
    M = T + "spectrogram.MultiResolutionSpectrogram"
    for label, n_fft, hop, norm, size in (
            ("two sizes", [16, 24], None, None, 64), ("same size", [16, 16], [4, 8], None, 64),
            ("one size", [20], None, None, 64), ("three", [8, 16, 32], None, [True], 64),
            ("size given once", [16], [8, 4], [True, True], 64), ("hops", [32, 8], [3, 5], None, 64),
            ("not normalized", [16, 24], None, [True, False], 64), ("ragged", [16, 24], [1, 2, 3], None, 64),
            ("wrong size", [16, 24], None, None, 65), ("eight", [8, 10, 12, 14, 16, 18, 20, 22], None, None, 32),
            ("four", [8, 10, 12, 14], [4], None, 32), ("normalized not", [16, 24], None, [False, True], 64),
            ("one not normalized", [16], None, [False], 64), ("one and two and three", [16], [1, 2, 3], [True, True], 64),
            ("both two", [16, 24], [4, 8], [True, True], 64)):
        @pair("P18:MultiResolutionSpectrogram[%s]" % label, "P18")
        def spec(c, n_fft=n_fft, hop=hop, norm=norm, size=size):
            kw = {"n_fft": c.list("n_fft", n_fft)}
            if hop:
                kw["hop_length"] = c.list("hop_length", hop)
            if norm:
                kw["normalized"] = c.list("normalized", norm)
            x = c.tensor("X", ["B", "C", size])
            return c.pair(lambda: c.call(c.new(M, 1, size - size % 2, **kw), x),
                          lambda: c.ref("filters.multiresolution", 1, size - size % 2, kw["n_fft"], kw.get("hop_length"), kw.get("normalized"), x))


_multi()
