"""Paired entry points of the networks."""
from ..values import Ext, Num
from .e_ref import pair

N = "ml4gw.nn."


def _norms():
    G = N + "norm.GroupNorm1D"
    for kind, C, g in (("default", "C", None), ("given", "gk", "g"), ("all", "C", "C"), ("one", "C", 1), ("zero", "C", 0),
                       ("indivisible", 5, 2), ("two", 6, 2), ("three", 6, 3)):
        for nd in (3, 2):
            @pair("P28:GroupNorm1D[groups=%s,%dD]" % (kind, nd), "P28")
            def spec(c, kind=kind, C=C, g=g, nd=nd):
                if kind == "given":
                    from ..values import Num
                    g = c.sym("g", lo=2)
                    C = Num(g.p * c.sym("k", lo=2).p, "int")
                else:
                    C = c.sym("C", lo=2) if C == "C" else C
                    g = c.sym("C", lo=2) if g == "C" else g
                eps = c.real("eps", pos=True)
                x = c.tensor("x", ["B", C, "T"][3 - nd:], "f32")
                if kind == "indivisible":
                    return c.pair(lambda: c.call(c.new(G, C, g, eps), x),
                                  lambda: c.ref("nets.group_norm_1d", C, g, eps, c.dict("state", {}), "", x))
                o = c.new(G, C, g, eps)
                P = c.trained(o)
                return c.pair(lambda: c.call(o, x), lambda: c.ref("nets.group_norm_1d", C, g, eps, P, "", x))
    for dims in (1, 2):
        for limit in (None, 2, 4, 16):
            @pair("P28:GroupNorm%dDGetter[groups=%s]" % (dims, limit), "P28")
            def spec2(c, dims=dims, limit=limit):
                o = c.call(c.new(N + "norm.GroupNorm%dDGetter" % dims, limit), 8)
                P = c.trained(o)
                Q = c.dict("state", {"n." + k: v for k, v in P.d.items()})
                x = c.tensor("x", ["B", 8, "T"] if dims == 1 else ["B", 8, "H", "W"], "f32")
                return c.pair(lambda: c.call(o, x), lambda: c.call(c.ref("nets.norm_%dd" % dims, limit), Q, "n", 8, x))


_norms()


def _resnets():
    cases = [([1, 1], None, 3, 1, 64), ([2, 1, 2], None, 5, 1, 64), ([1, 2, 1], ["stride", "dilation"], 3, 1, 64),
             ([1, 2, 2], ["dilation", "dilation"], 3, 1, 64), ([2, 2], ["dilation"], 7, 1, 64),
             ([1, 1, 2], ["dilation", "stride"], 3, 2, 32), ([1, 1], None, 3, 2, 64), ([1, 1], None, 3, 1, 128), ([1, 2], None, 3, 4, 16), ([1, 1], None, 4, 1, 64),
             ([1, 1], ["other"], 3, 1, 64), ([1, 1], ["stride", "stride"], 3, 1, 64), ([3, 4, 6, 3], None, 3, 1, 64),
             ([2], None, 3, 1, 64), ([1], None, 5, 1, 64)]
    for dims in (1, 2):
        for block in ("basic", "bottleneck"):
            for kind, limit in (("default", None), ("group", 16), ("batch", None)):
                for layers, kinds, size, groups, width in cases:
                    if kind != "default" and (len(layers) != 2 or groups != 1 or size != 3 or kinds):
                        continue
                    if len(layers) == 4 and block == "bottleneck":
                        continue

                    @pair("P28:%sResNet%dD[layers=%s,strides=%s,kernel=%d,groups=%d,width=%d,norm=%s]" % (
                        "Bottleneck" if block == "bottleneck" else "", dims, layers, kinds, size, groups, width, kind), "P28")
                    def spec(c, dims=dims, block=block, kind=kind, limit=limit, layers=layers, kinds=kinds, size=size,
                             groups=groups, width=width):
                        path = N + "resnet.resnet_%dd." % dims
                        cls = path + ("Bottleneck" if block == "bottleneck" else "") + "ResNet%dD" % dims
                        norm = None
                        if kind == "group":
                            norm = c.new(N + "norm.GroupNorm%dDGetter" % dims, limit)
                        if kind == "batch":
                            norm = Ext("torch.nn.BatchNorm%dd" % dims)
                        cin, classes = c.sym("channels", lo=1), c.sym("classes", lo=1)
                        x = c.tensor("x", ["B", cin, "T"] if dims == 1 else ["B", cin, "H", "W"], "f32")
                        st = c.list("stride_type", list(kinds)) if kinds else None
                        ly = c.list("layers", list(layers))

                        def make():
                            return c.new(cls, cin, ly, classes, size, False, groups, width, st, norm)

                        def ref(P):
                            return c.ref("nets.resnet", P, x, dims, block, cin, ly, classes, size, groups, width, st,
                                         "batch" if kind == "batch" else "group", limit)
                        o = c.attempt(make)
                        if o[0] == "raises":
                            return c.pair(make, lambda: ref(c.dict("state", {})))
                        P = c.trained(o[1])
                        return c.pair(lambda: c.call(o[1], x), lambda: ref(P))


_resnets()


def _s4():
    S = N + "ssm.s4d."

    @pair("P28:S4DKernel", "P28")
    def spec(c):
        o = c.new(S + "S4DKernel", c.sym("H", lo=1), c.sym("N", lo=2))
        P = c.trained(o)
        n = c.sym("L", lo=1)
        return c.pair(lambda: c.call(o, n), lambda: c.ref("nets.impulse_response", P, "", n))

    for drop in (0.0, 0.3, None, 1.5, -0.5, 1.005, -0.005, "half"):
        for tr in (True, False):
            @pair("P28:S4D[dropout=%s,transposed=%s]" % (drop, tr), "P28")
            def spec2(c, drop=drop, tr=tr):
                H = c.sym("H", lo=1)

                def make():
                    return c.new(S + "S4D", H, c.sym("N", lo=2), drop, tr)
                x = c.tensor("u", ["B", H, "L"] if tr else ["B", "L", H], "f32")
                o = c.attempt(make)
                if o[0] == "raises" or drop not in (0.0, 0.3):
                    return c.pair(make, lambda: c.ref("nets.refuse"))
                P = c.trained(o[1])
                return c.pair(lambda: c.call(o[1], x), lambda: c.ref("nets.s4d", P, "", H, drop, tr, x))

    for layers in (1, 2, 3):
        for drop in (0.0, 0.2):
            @pair("P28:S4Model[layers=%d,dropout=%s]" % (layers, drop), "P28")
            def spec3(c, layers=layers, drop=drop):
                i, o, H = c.sym("d_input", lo=1), c.sym("d_output", lo=1), c.sym("H", lo=1)
                m = c.new(S + "S4Model", i, o, H, c.sym("N", lo=2), layers, drop)
                P = c.trained(m)
                x = c.tensor("x", ["B", i, "L"], "f32")
                return c.pair(lambda: c.call(m, x), lambda: c.ref("nets.s4model", P, i, o, H, layers, drop, x))


_s4()


def _fresh():
    @pair("P28:S4DKernel[initial]", "P28")
    def spec(c):
        H, n, a, b = c.sym("H", lo=1), c.sym("N", lo=2), c.real("dt_min", pos=True), c.real("dt_max", pos=True)

        def subject():
            o = c.new(N + "ssm.s4d.S4DKernel", H, n, a, b)
            return tuple(c.I.getattr(o, k) for k in ("log_dt", "C", "log_A_real", "A_imag"))
        return c.pair(subject, lambda: c.ref("nets.fresh_kernel", H, n, a, b))

    @pair("P28:S4Model[initial]", "P28")
    def spec1(c):
        H, n, a, b = c.sym("H", lo=1), c.sym("N", lo=2), c.real("dt_min", pos=True), c.real("dt_max", pos=True)

        def subject():
            o = c.new(N + "ssm.s4d.S4Model", 2, 1, H, n, 1, 0.0, a, b)
            k = c.I.getattr(c.I.getitem(c.I.getattr(o, "s4_layers"), 0), "kernel")
            return tuple(c.I.getattr(k, x) for x in ("log_dt", "C", "log_A_real", "A_imag"))

        def ref():
            c.ref("nets.skip_draw", H)
            return c.probe("nets.fresh_kernel", H, n, a, b)
        return c.pair(subject, ref)

    @pair("P28:GroupNorm1D[initial]", "P28")
    def spec2(c):
        C = c.sym("C", lo=1)
        def subject():
            o = c.new(N + "norm.GroupNorm1D", C)
            return c.I.getattr(o, "weight"), c.I.getattr(o, "bias")
        return c.pair(subject, lambda: c.ref("nets.fresh_norm", C))


_fresh()


def _auto():
    A = N + "autoencoder."
    for rel in ("longer", "shorter", "equal"):
        for par in ("even", "odd"):
            if rel == "equal" and par == "odd":
                continue

            @pair("P29:match_size[%s,%s]" % (rel, par), "P29")
            def spec(c, rel=rel, par=par):
                k, n = c.sym("k", lo=1), c.sym("size", lo=1)
                d = 0 if rel == "equal" else c.poly(k) * 2 - (par == "odd")
                T = c.poly(n) + d if rel == "longer" else c.poly(n)
                want = Num(c.poly(n) + d, "int") if rel == "shorter" else n
                x = c.tensor("x", ["B", "C", T], "f32")
                return c.pair(lambda: c.call(A + "utils.match_size", x, want), lambda: c.ref("nets.resize", x, want))
    for kind, cls in (("plain", "SkipConnection"), ("add", "AddSkipConnect"), ("concat", "ConcatSkipConnect")):
        for groups in (1, 2, 3):
            if groups != 1 and kind != "concat":
                continue
            for C in (6, 5, 12):
                for rel in (-3, -2, -1, 0, 1, 2, 5):
                    if C != 6 and rel:
                        continue

                    @pair("P29:%s[groups=%d,channels=%d,excess=%d]" % (cls, groups, C, rel), "P29")
                    def spec2(c, kind=kind, cls=cls, groups=groups, C=C, rel=rel):
                        n = c.sym("T", lo=8)
                        x = c.tensor("x", ["B", C, c.poly(n) + rel], "f32")
                        s = c.tensor("state", ["B", C, n], "f32")
                        o = c.new(A + "skip_connection." + cls, *([groups] if kind == "concat" else []))
                        return c.pair(lambda: c.call(o, x, s), lambda: c.ref("nets.join", kind, groups, x, s))
    for encode in ([8], [8, 4]):
        for linear in (False, True):
            @pair("P29:ConvolutionalAutoencoder[tanh, no norm,encode=%s,linear=%s]" % (encode, linear), "P29")
            def spec4(c, encode=encode, linear=linear):
                o = c.new(A + "ConvolutionalAutoencoder", 4, c.list("encode", list(encode)), 7, 2, 1,
                          activation=Ext("torch.nn.Tanh"), norm=Ext("torch.nn.Identity"),
                          output_activation=Ext("torch.nn.Identity") if linear else None)
                P = c.trained(o)
                x = c.tensor("x", ["B", 4, c.sym("T", lo=400)], "f32")
                return c.pair(lambda: c.call(o, x), lambda: c.ref("nets.autoencoder", P, x, 4, c.list("encode", list(encode)),
                                                                  7, 2, 1, None, None, 1, linear, True))
    skips = ((None, None, 1), ("plain", "SkipConnection", 1), ("add", "AddSkipConnect", 1), ("concat", "ConcatSkipConnect", 1),
             ("concat", "ConcatSkipConnect", 2))
    for kind, cls, sg in skips:
        for encode in ([8], [8, 4], [4, 8, 6], [4, 4, 6, 2]):
            for size, stride in ((3, 1), (7, 2), (4, 3)):
                for groups, decoded, linear in ((1, None, False), (1, 5, True), (2, None, True)):
                    if kind is None or len(encode) > 1:
                        if (sg == 2) != (groups == 2) and kind == "concat":
                            continue

                        @pair("P29:ConvolutionalAutoencoder[skip=%s%s,encode=%s,kernel=%d,stride=%d,groups=%d,decode=%s,linear=%s]" % (
                            kind, sg if sg > 1 else "", encode, size, stride, groups, decoded, linear), "P29")
                        def spec3(c, kind=kind, cls=cls, sg=sg, encode=encode, size=size, stride=stride, groups=groups,
                                  decoded=decoded, linear=linear):
                            C = 4
                            sk = c.new(A + "skip_connection." + cls, *([sg] if kind == "concat" else [])) if cls else None
                            kw = {"output_activation": Ext("torch.nn.Identity")} if linear else {}
                            o = c.new(A + "ConvolutionalAutoencoder", C, c.list("encode", list(encode)), size, stride, groups,
                                      decode_channels=decoded, skip_connection=sk, **kw)
                            P = c.trained(o)
                            x = c.tensor("x", ["B", C, c.sym("T", lo=400)], "f32")
                            return c.pair(lambda: c.call(o, x),
                                          lambda: c.ref("nets.autoencoder", P, x, C, c.list("encode", list(encode)), size,
                                                        stride, groups, decoded, kind, sg, linear))


_auto()


def _zero():
    for dims in (1, 2):
        for block in ("basic", "bottleneck"):
            for norm in ("default", "batch"):
                for zero in (True, False):
                    @pair("P28:ResNet%dD[%s,norm=%s,%s initial residual]" % (dims, block, norm, "zero" if zero else "full"), "P28")
                    def spec(c, dims=dims, block=block, norm=norm, zero=zero):
                        path = N + "resnet.resnet_%dd." % dims
                        cls = path + ("Bottleneck" if block == "bottleneck" else "") + "ResNet%dD" % dims
                        last = "bn3" if block == "bottleneck" else "bn2"
                        at = c.I.getattr

                        def subject():
                            nl = Ext("torch.nn.BatchNorm%dd" % dims) if norm == "batch" else None
                            o = c.new(cls, 2, c.list("layers", [1, 2]), 3, 3, zero, 1, 64, None, nl)
                            ls = at(o, "residual_layers")
                            blocks = [c.I.getitem(c.I.getitem(ls, i), j) for i, j in ((0, 0), (1, 0), (1, 1))]
                            return (tuple(at(at(b, last), "weight") for b in blocks),
                                    tuple(at(at(b, last), "bias") for b in blocks),
                                    tuple(at(at(b, "bn1"), "weight") for b in blocks),
                                    at(at(o, "bn1"), "weight"), at(at(o, "bn1"), "bias"))
                        g = 4 if block == "bottleneck" else 1
                        return c.pair(subject, lambda: c.ref("nets.start", c.list("outer", [64 * g, 128 * g, 128 * g]),
                                                             c.list("inner", [64, 128, 128]), zero,
                                                             norm == "default" and dims == 1))


_zero()
