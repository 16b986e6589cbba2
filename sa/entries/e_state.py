"""Paired entry points: state dictionaries carry everything fitting and training determine (P06)."""
from ..values import Ext
from .e_ref import pair, SHAPES

T = "ml4gw.transforms."
N = "ml4gw.nn."


def _fits():
    """name -> (constructor, fit(object, which data), inputs)."""
    out = {}

    def scaler(ch):
        def make(c):
            return c.new(T + "scaler.ChannelWiseScaler", c.sym("C") if ch else None)

        def fit(c, o, k):
            c.method(o, "fit", c.tensor("X%d" % k, (["C"] if ch else []) + ["T%d" % k]))
        return make, fit, lambda c, o: (c.call(o, c.tensor("Y", ["B", "C", "T"] if ch else ["T"])),
                                        c.call(o, c.tensor("Y", ["B", "C", "T"] if ch else ["T"]), reverse=True))
    out["ChannelWiseScaler(C)"] = scaler(True)
    out["ChannelWiseScaler()"] = scaler(False)

    def fixed(hp, crop):
        def make(c):
            return c.new(T + "whitening.FixedWhiten", 1, c.real("kernel_length"), c.real("sample_rate"))

        def fit(c, o, k):
            b = [c.tensor("b%d" % k, [o.attrs["psd"].shape[1].p], "f64")]
            kw = {"highpass": c.real("hp%d" % k)} if hp else {}
            c.method(o, "fit", c.real("fduration%d" % k), *b, **kw)
        return make, fit, lambda c, o: c.call(o, c.tensor("Y", ["B", 1, "T"]), crop)
    out["FixedWhiten"] = fixed(False, True)
    out["FixedWhiten,highpass"] = fixed(True, False)

    def snr(hp):
        def make(c):
            return c.new(T + "snr_rescaler.SnrRescaler", 1, c.real("sample_rate"), c.real("duration"), c.real("hp") if hp else None)

        def fit(c, o, k):
            c.method(o, "fit", *[c.tensor("b%d%d" % (k, j), ["T%d" % k], "f64") for j in range(1)], fftlength=c.real("fftlength%d" % k))
        return make, fit, lambda c, o: c.call(o, c.tensor("Y", ["B", 1, c.named("n", 2 * (o.attrs["background"].shape[1].p - 1))]),
                                              c.tensor("target", ["B"]))
    out["SnrRescaler"] = snr(False)
    out["SnrRescaler,highpass"] = snr(True)
    return out


def _round_trips():
    for name, (make, fit, run) in _fits().items():
        for hist in ("new", "fitted before", "used before"):
            @pair("P06:%s[state loaded into a %s object]" % (name, hist), "P06")
            def spec(c, make=make, fit=fit, run=run, hist=hist):
                a, b = make(c), make(c)
                done = [c.attempt(fit, c, a, 1)]
                if hist != "new":
                    done.append(c.attempt(fit, c, b, 2))
                if hist == "used before":
                    done.append(c.attempt(run, c, b))
                want = c.attempt(run, c, a)
                bad = [d[1] for d in done + [want] if d[0] == "raises"]
                if bad:  # data that cannot be fitted or transformed at all is refused with a ValueError
                    return c.pair(lambda: bad[0], lambda: "ValueError")

                def subject():
                    c.method(b, "load_state_dict", c.method(a, "state_dict"))
                    return run(c, b)
                return c.pair(subject, lambda: want[1])

        @pair("P06:%s[refuses to run unfitted]" % name, "P06")
        def spec2(c, make=make, run=run):
            a = make(c)
            return c.pair(lambda: run(c, a), lambda: c.ref("nets.refuse"))

        for kind in ("empty", "misshapen"):
            @pair("P06:%s[a failed load of %s state does not fit]" % (name, kind), "P06")
            def spec3(c, make=make, run=run, kind=kind):
                a = make(c)
                d = c.method(a, "state_dict").d if kind == "misshapen" else {}
                state = c.dict("state", {k: c.tensor("wrong_" + k, [2, 3, 5], v.dtype) for k, v in d.items()})

                def subject():
                    r = c.attempt(lambda: c.method(a, "load_state_dict", state))
                    return (r[0], c.attempt(lambda: run(c, a)))
                return c.pair(subject, lambda: ("raises", ("raises", "ValueError")))


_round_trips()


def modules():
    """Modules whose state is trained or derived from their arguments."""
    out = {}
    for dims in (1, 2):
        for block in ("", "Bottleneck"):
            for norm in ("batch", "group"):
                def make(c, dims=dims, block=block, norm=norm):
                    nm = Ext("torch.nn.BatchNorm%dd" % dims) if norm == "batch" else None
                    return c.new(N + "resnet.resnet_%dd.%sResNet%dD" % (dims, block, dims), 2, c.list("layers", [2, 1]), 3,
                                 norm_layer=nm)
                out["%sResNet%dD,%s" % (block, dims, norm)] = make, lambda c, o, dims=dims: c.call(
                    o, c.tensor("x", ["B", 2, "T"] if dims == 1 else ["B", 2, "H", "W"], "f32"))
    out["S4Model"] = (lambda c: c.new(N + "ssm.s4d.S4Model", 2, 1, c.sym("H", lo=1), c.sym("N", lo=2), 2, 0.0),
                      lambda c, o: c.call(o, c.tensor("x", ["B", 2, "L"], "f32")))
    out["S4DKernel"] = (lambda c: c.new(N + "ssm.s4d.S4DKernel", c.sym("H", lo=1), c.sym("N", lo=2)),
                        lambda c, o: c.call(o, c.sym("L", lo=1)))
    out["GroupNorm1D"] = (lambda c: c.new(N + "norm.GroupNorm1D", 6, 3), lambda c, o: c.call(o, c.tensor("x", ["B", 6, "T"], "f32")))
    A = N + "autoencoder."
    out["ConvolutionalAutoencoder"] = (
        lambda c: c.new(A + "ConvolutionalAutoencoder", 4, c.list("encode", [8, 4]), 7, 2, 1,
                        skip_connection=c.new(A + "skip_connection.AddSkipConnect")),
        lambda c, o: c.call(o, c.tensor("x", ["B", 4, c.sym("T", lo=400)], "f32")))
    return out


def _modules():
    for name, (make, run) in modules().items():
        @pair("P06:%s[state loaded into a new object]" % name, "P06")
        def spec(c, make=make, run=run):
            a, b = make(c), make(c)
            c.trained(a)
            want = run(c, a)

            def subject():
                c.method(b, "load_state_dict", c.method(a, "state_dict"))
                return run(c, b)
            return c.pair(subject, lambda: want)


_modules()
