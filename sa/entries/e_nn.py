"""nn/*"""
from . import entry

N = "ml4gw.nn."
B1 = dict(batch=["B"], chan=["C"], time=["T"])


def _norm():
    G = N + "norm.GroupNorm1D"
    for ng in (None, "g"):
        @entry("GroupNorm1D[groups=%s]" % ng, group="nn", cls=G, module=G, mixes_channels=True, **B1)
        def spec(c, ng=ng):
            if ng:
                g, k = c.sym("g"), c.sym("k", lo=2)
                from ..values import Num
                ch = Num(g.p * k.p, "int")
            else:
                g, ch = None, c.sym("C")
            o = c.new(G, ch, g)
            x = c.tensor("x", ["B", ch, "T"])
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, x)

    @entry("GroupNorm1D[2D input]", group="nn", expect_error=True, **B1)
    def spec2(c):
        return c.call(c.new(G, c.sym("C")), c.tensor("x", ["C", "T"]))

    @entry("GroupNorm1D[indivisible]", group="nn", expect_error=True, **B1)
    def spec3(c):
        return c.new(G, 5, 2)

    for cls in ("GroupNorm1DGetter", "GroupNorm2DGetter"):
        for gr in (None, 4):
            @entry("%s[%s]" % (cls, gr), group="nn", cls=N + "norm." + cls, **B1)
            def spec4(c, cls=cls, gr=gr):
                g = c.new(N + "norm." + cls, gr)
                o = c.call(g, 8)
                x = c.tensor("x", ["B", 8, "T"] if "1D" in cls else ["B", 8, "H", "W"])
                c.publish(o)
                c.begin()
                return c.call(o, x)


_norm()


def _stream():
    O = N + "streaming.OnlineAverager"
    for off in (None, "offset"):
        for state in (None, "state"):
            for nu in ("num_updates", 1):
                @entry("OnlineAverager[offset=%s,state=%s,updates=%s]" % (off, state, nu), group="nn", cls=O, module=O,
                       batch=["B"], chan=["C"], time=["S", "L"], stream=True)
                def spec(c, off=off, state=state, nu=nu):
                    us, b = c.sym("update_size"), c.sym("B")
                    k = nu if nu == 1 else c.sym(nu, lo=2)
                    of = c.sym("offset") if off else None
                    o = c.new(O, us, b, k, c.sym("C"), of)
                    c.sym("L")
                    x = c.tensor("update", ["B", "C", "L"])
                    kp = k.p if nu != 1 else 1
                    c.assume_ge("L", us.p * kp + (of.p if of else 0))
                    from ..values import Num
                    st = c.tensor("state", ["C", Num(us.p * (kp - 1), "int")]) if state else None
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x, st)

    S = N + "streaming.Snapshotter"
    for cps in (None, "split"):
        for state in (None, "state"):
            for bs in ("batch_size", 1):
                @entry("Snapshotter[split=%s,state=%s,batch=%s]" % (cps, state, bs), group="nn", cls=S, module=S,
                       batch=["S"], chan=["C"], time=["T"], stream=True)
                def spec2(c, cps=cps, state=state, bs=bs):
                    ss, st = c.sym("snapshot_size"), c.sym("stride_size")
                    b = bs if bs == 1 else c.sym(bs, lo=2)
                    c.assume_ge("snapshot_size", c.poly("stride_size") + 1)
                    if cps:
                        ch, sp = 3, c.list("channels_per_snapshot", [1, 2])
                    else:
                        ch, sp = c.sym("C"), None
                    o = c.new(S, ch, ss, st, b, sp)
                    from ..values import Num
                    x = c.tensor("update", [ch, Num(st.p * (1 if bs == 1 else b.p), "int")])
                    s0 = c.tensor("snapshot", [ch, Num(ss.p - st.p, "int")]) if state else None
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x, s0)

    for bad in ("stride", "channels"):
        @entry("Snapshotter[bad %s]" % bad, group="nn", batch=[], chan=[], time=[], expect_error=True)
        def spec3(c, bad=bad):
            if bad == "stride":
                return c.new(S, 2, 8, 8, 4)
            return c.new(S, 3, 8, 2, 4, c.list("cps", [1, 1]))


_stream()


def _ae():
    A_ = N + "autoencoder.ConvolutionalAutoencoder"
    for skip in (None, "AddSkipConnect", "ConcatSkipConnect", "ConcatSkipConnect2"):
        for nl in (1, 2, 3):
            for stride in (1, 2):
                @entry("ConvolutionalAutoencoder[skip=%s,%d layers,stride %d]" % (skip, nl, stride), group="nn", cls=A_,
                       module=A_, train=True, **B1)
                def spec(c, skip=skip, nl=nl, stride=stride):
                    if skip is None:
                        sk = None
                    elif skip.endswith("2"):
                        sk = c.new(N + "autoencoder.skip_connection.ConcatSkipConnect", 2)
                    else:
                        sk = c.new(N + "autoencoder.skip_connection." + skip)
                    g = 2 if skip == "ConcatSkipConnect2" else 1
                    o = c.new(A_, 2, c.list("encode_channels", [4, 8, 16][:nl]), 7, stride, g,
                              skip_connection=sk)
                    x = c.tensor("X", ["B", 2, "T"])
                    c.sym("T", lo=64)
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x)

    @entry("ConvolutionalAutoencoder.decode[no states]", group="nn", expect_error=True, **B1)
    def spec2(c):
        sk = c.new(N + "autoencoder.skip_connection.AddSkipConnect")
        o = c.new(A_, 2, c.list("encode_channels", [4, 8]), 7, skip_connection=sk)
        x = c.tensor("X", ["B", 8, "T"])
        return c.method(o, "decode", x)

    for k in ("longer", "shorter", "equal"):
        @entry("match_size[%s]" % k, group="nn", **B1)
        def spec3(c, k=k):
            x = c.tensor("X", ["B", "C", "T"])
            n = c.sym("target")
            if k == "longer":
                c.assume_ge("target", c.poly("T") + 1)
            elif k == "shorter":
                c.assume_ge("T", c.poly("target") + 1)
            else:
                n = c.sym("T")
            c.begin()
            return c.call(N + "autoencoder.utils.match_size", x, n)


_ae()


def _ssm():
    K = N + "ssm.s4d.S4DKernel"

    @entry("S4DKernel", group="nn", cls=K, module=K, batch=[], chan=["H"], time=["L"], train=True)
    def spec(c):
        o = c.new(K, c.sym("H"), 8)
        c.publish(o)
        c.obj = o
        n = c.sym("L")
        c.begin()
        return c.call(o, n)

    S = N + "ssm.s4d.S4D"
    for tr in (True, False):
        for dr in (0.0, 0.5):
            @entry("S4D[transposed=%s,dropout=%s]" % (tr, dr), group="nn", cls=S, module=S, batch=["B"], chan=["H"],
                   time=["L"], train=True, dropout=dr > 0, mixes_channels=True)
            def spec2(c, tr=tr, dr=dr):
                o = c.new(S, c.sym("H"), 8, dropout=dr, transposed=tr)
                x = c.tensor("u", ["B", "H", "L"] if tr else ["B", "L", "H"])
                c.publish(o)
                c.obj = o
                c.begin()
                return c.call(o, x)
    for bad in (1.5, None, -0.5):
        @entry("S4D[bad dropout %s]" % bad, group="nn", batch=[], chan=[], time=[], expect_error=True)
        def spec3(c, bad=bad):
            return c.new(S, 4, dropout=bad)

    M = N + "ssm.s4d.S4Model"
    for nl in (1, 3):
        @entry("S4Model[%d layers]" % nl, group="nn", cls=M, module=M, batch=["B"], chan=["Cin"], time=["L"], train=True,
               dropout=True, mixes_channels=True)
        def spec4(c, nl=nl):
            o = c.new(M, c.sym("Cin"), c.sym("Cout"), c.sym("H"), 8, nl)
            x = c.tensor("x", ["B", "Cin", "L"])
            c.publish(o)
            c.obj = o
            c.begin()
            return c.call(o, x)


_ssm()


def _resnet():
    for d in (1, 2):
        for cls in ("ResNet", "BottleneckResNet"):
            R = N + "resnet.resnet_%dd.%s%dD" % (d, cls, d)
            for st in (None, "stride", "dilation"):
                for layers in ([2, 2], [1, 2, 1]):
                    for zi in (False, True):
                        if zi and (st is not None or len(layers) == 3):
                            continue

                        @entry("%s%dD[stride_type=%s,layers=%s,zero_init=%s]" % (cls, d, st, layers, zi), group="nn",
                               cls=R, module=R, batch=["B"], chan=["C"], time=["T"], train=True, mixes_channels=True,
                               resnet=(cls, d))
                        def spec(c, R=R, st=st, layers=layers, zi=zi, d=d, cls=cls):
                            if st == "dilation" and cls == "ResNet":
                                pass
                            kw = {}
                            if st:
                                kw["stride_type"] = c.list("stride_type", [st] * (len(layers) - 1))
                            o = c.new(R, c.sym("C"), c.list("layers", list(layers)), c.sym("classes"),
                                      zero_init_residual=zi, **kw)
                            c.sym("T", lo=64)
                            x = c.tensor("x", ["B", "C", "T"] if d == 1 else ["B", "C", "T", "T2"])
                            c.sym("T2", lo=64)
                            c.publish(o)
                            c.obj = o
                            c.begin()
                            return c.call(o, x)
            for bad in ("length", "kernel"):
                @entry("%s%dD[bad %s]" % (cls, d, bad), group="nn", batch=[], chan=[], time=[], expect_error=True)
                def spec2(c, R=R, bad=bad):
                    kw = {"stride_type": c.list("st", ["stride"] * 3)} if bad == "length" else {"kernel_size": 4}
                    return c.new(R, 2, c.list("layers", [2, 2]), 1, **kw)
            for single in (1,):
                @entry("%s%dD[single layer]" % (cls, d), group="nn", cls=R, module=R, batch=["B"], chan=["C"],
                       time=["T"], train=True, mixes_channels=True)
                def spec3(c, R=R, d=d):
                    o = c.new(R, c.sym("C"), c.list("layers", [2]), c.sym("classes"))
                    c.sym("T", lo=64)
                    c.sym("T2", lo=64)
                    x = c.tensor("x", ["B", "C", "T"] if d == 1 else ["B", "C", "T", "T2"])
                    c.publish(o)
                    c.obj = o
                    c.begin()
                    return c.call(o, x)


_resnet()
