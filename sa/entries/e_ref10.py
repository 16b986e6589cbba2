"""Paired entry points of augmentations, waveform sampling and streaming."""
from .e_ref import pair

W = "ml4gw.transforms.waveforms."
N = "ml4gw.nn.streaming."


def _aug():
    for cls, ref in (("SignalInverter", "invert"), ("SignalReverser", "reverse")):
        for nd in (1, 2, 3, 4):
            @pair("P26:%s[%dD]" % (cls, nd), "P26")
            def spec(c, cls=cls, ref=ref, nd=nd):
                p = c.real("prob")
                x = c.tensor("X", ["A", "B", "C", "T"][-nd:], "f32")
                o = c.new("ml4gw.augmentations." + cls, p)
                return c.pair(lambda: c.call(o, c.method(x, "clone")), lambda: c.ref("streaming." + ref, x, p))


def _waveforms():
    for pols in (1, 2, 3):
        for par in (False, True):
            for how in ("n", "all"):
                @pair("P26:WaveformSampler[%d polarizations,parameters=%s,%s]" % (pols, par, how), "P26")
                def spec(c, pols=pols, par=par, how=how):
                    t = {k: c.tensor(k, ["R", "T"], "f32") for k in ("plus", "cross", "breathing")[:pols]}
                    q = c.tensor("parameters", ["R", "K"], "f32") if par else None
                    n = c.sym("N", lo=0) if how == "n" else -1
                    o = c.new(W + "WaveformSampler", q, **t)
                    return c.pair(lambda: c.call(o, n), lambda: c.ref("streaming.sample", c.dict("tables", t), q, n))
    for bad in ("polarization", "parameters"):
        @pair("P26:WaveformSampler[%s of another size]" % bad, "P26")
        def spec2(c, bad=bad):
            t = {"plus": c.tensor("plus", ["R", "T"], "f32"),
                 "cross": c.tensor("cross", ["S" if bad == "polarization" else "R", "T"], "f32")}
            q = c.tensor("parameters", ["S" if bad == "parameters" else "R", "K"], "f32")
            n = c.sym("N", lo=0)
            return c.pair(lambda: c.call(c.new(W + "WaveformSampler", q, **t), n),
                          lambda: c.ref("streaming.sample", c.dict("tables", t), q, n))
    for ifos in (("H1",), ("H1", "L1"), ("K1", "V1", "H1")):
        for pols in (("plus",), ("plus", "cross"), ("cross", "breathing", "plus")):
            @pair("P26:WaveformProjector[%s;%s]" % (",".join(ifos), ",".join(pols)), "P26")
            def spec3(c, ifos=ifos, pols=pols):
                t = {k: c.tensor(k, ["B", "T"], "f32") for k in pols}
                a = [c.tensor(k, ["B"], "f32") for k in ("dec", "psi", "phi")]
                sr = c.real("sample_rate", pos=True)
                names = c.list("ifos", list(ifos))
                o = c.new(W + "WaveformProjector", names, sr)
                return c.pair(lambda: c.call(o, *a, **t), lambda: c.ref("streaming.project", names, sr, *a, c.dict("tables", t)))


_aug()
_waveforms()


def _stream():
    for batch in ("one", "many"):
        for split in (None, (1, 1), (2, 1, 3), "bad"):
            for past in ("given", "none", "twice"):
                if past == "twice" and split == "bad":
                    continue

                @pair("P27:Snapshotter[batch=%s,split=%s,state=%s]" % (batch, split, past), "P27")
                def spec(c, batch=batch, split=split, past=past):
                    size, stride = c.sym("snapshot_size", lo=2), c.sym("stride_size", lo=1)
                    b = 1 if batch == "one" else c.sym("batch_size", lo=2)
                    cs = None if split is None else c.list("channels_per_snapshot", [1, 2] if split == "bad" else list(split))
                    C = c.sym("C") if split is None else 4 if split == "bad" else sum(split)
                    new = c.tensor("update", [C, c.poly(b) * c.poly(stride)], "f32")
                    new2 = c.tensor("update2", [C, c.poly(b) * c.poly(stride)], "f32")
                    old = None
                    if past != "none":
                        c.assume_ge(size, c.poly(stride) + 1)
                        old = c.tensor("snapshot", [C, c.poly(size) - c.poly(stride)], "f32")

                    def subject():
                        o = c.new(N + "Snapshotter", C, size, stride, b, cs)
                        r = c.call(o, new, old)
                        return c.call(o, new2, r[-1]) if past == "twice" else r

                    def ref():
                        r = c.ref("streaming.snapshotter", C, size, stride, b, cs, new, old)
                        return c.ref("streaming.snapshotter", C, size, stride, b, cs, new2, r[-1]) if past == "twice" else r
                    return c.pair(subject, ref)

    for batch in (1, 2, 3, 4, 6):
        for num in (1, 2, 3, 4, 7) + (("any",) if batch < 3 else ()):
            for off in (None, 0, "k"):
                for past in ("given", "none"):
                    @pair("P27:OnlineAverager[batch=%s,updates=%s,offset=%s,state=%s]" % (batch, num, off, past), "P27")
                    def spec2(c, batch=batch, num=num, off=off, past=past):
                        u, C = c.sym("update_size", lo=1), c.sym("C")
                        k = c.sym("offset", lo=1) if off else off
                        num = c.sym("num_updates", lo=max(batch, 2)) if num == "any" else num
                        x = c.tensor("update", [batch, C, c.sym("T", lo=1)], "f32")
                        c.assume_ge(c.sym("T", lo=1), c.poly(u) * c.poly(num) + (c.poly(k) if off else 0))
                        s = c.tensor("state", [C, c.poly(u) * (c.poly(num) - 1)], "f32") if past == "given" else None
                        o = c.new(N + "OnlineAverager", u, batch, num, C, k)
                        return c.pair(lambda: c.call(o, c.method(x, "clone"), s),
                                      lambda: c.ref("streaming.average", u, batch, num, C, k, x, s))


_stream()
