"""Paired entry points of the parameter distributions."""
from .e_ref import pair

D = "ml4gw.distributions."


def shapes(c):
    return {"none": (), "one": (c.sym("N"),), "two": (c.sym("N"), c.sym("M"))}


def _simple():
    def make(c, cls):
        a = c.scalar("low"), c.scalar("high")
        if cls == "LogNormal":
            return [c.scalar("mean"), c.scalar("std")]
        if cls == "DeltaFunction":
            return [c.scalar("peak")]
        return list(a)

    names = {"Cosine": "cosine", "Sine": "sine", "LogUniform": "log_uniform", "LogNormal": "log_normal",
             "DeltaFunction": "delta", "LogNormal, no validation": "log_normal"}
    for cls, ref in names.items():
        for op in ("sample", "rsample", "log_prob"):
            if cls == "DeltaFunction" and op == "log_prob":
                continue
            for sh in ("none", "one", "two"):
                @pair("P25:%s.%s[%s]" % (cls, op, sh), "P25")
                def spec(c, cls=cls, ref=ref, op=op, sh=sh):
                    off = {"validate_args": False} if "," in cls else {}
                    cls = cls.split(",")[0]
                    a = make(c, cls)
                    o = c.new(D + cls, *a, **off)
                    size = shapes(c)[sh]
                    if op == "log_prob":
                        x = c.tensor("value", size, "f32")
                        return c.pair(lambda: c.method(o, op, x), lambda: c.ref("distributions.%s_score" % ref, *a, x))
                    return c.pair(lambda: c.method(o, op, size), lambda: c.ref("distributions.%s_sample" % ref, *a, size))

    for cls, ref in names.items():
        if "," in cls:
            continue
        for op in ("sample", "rsample", "log_prob"):
            if cls in ("DeltaFunction", "LogNormal") and op == "log_prob":
                continue

            @pair("P25:%s.%s[numbers]" % (cls, op), "P25")
            def spec3(c, cls=cls, ref=ref, op=op):
                """Plain numbers as parameters and as value, and no shape."""
                a = [c.real(n) for n in {"LogNormal": ("mean", "std"), "DeltaFunction": ("peak",)}.get(cls, ("low", "high"))]
                if op == "log_prob":
                    x = c.real("value") if cls == "Cosine" else c.tensor("value", ["N"], "f32")
                    return c.pair(lambda: c.method(c.new(D + cls, *a), op, x),
                                  lambda: c.ref("distributions.from_numbers_score", cls, c.list("parameters", a), x))
                return c.pair(lambda: c.method(c.new(D + cls, *a), op), lambda: c.ref("distributions.from_numbers_sample", cls, c.list("parameters", a)))

    for i in ("i", 0, -1, 1, 2, -2, -3, -4):
        for op in ("sample", "rsample", "log_prob"):
            for sh in ("none", "one", "two"):
                if sh != "one" and i != 2:
                    continue

                @pair("P25:PowerLaw[index=%s].%s[%s]" % (i, op, sh), "P25")
                def spec2(c, i=i, op=op, sh=sh):
                    a = [c.scalar("minimum"), c.scalar("maximum"), c.real("index") if i == "i" else i]
                    size = shapes(c)[sh]
                    if op == "log_prob":
                        x = c.tensor("value", size, "f32")
                        return c.pair(lambda: c.method(c.new(D + "PowerLaw", *a), op, x),
                                      lambda: c.ref("distributions.power_score", *a, x))
                    return c.pair(lambda: c.method(c.new(D + "PowerLaw", *a), op, size),
                                  lambda: c.ref("distributions.power_sample", *a, size))


_simple()


def _volume():
    for cls in ("UniformComovingVolume", "RateEvolution"):
        for kind in ("redshift", "comoving_distance", "luminosity_distance", "bad"):
            for op in ("sample", "rsample", "log_prob"):
                @pair("P25:%s[%s].%s" % (cls, kind, op), "P25")
                def spec(c, cls=cls, kind=kind, op=op):
                    rate = c.callback("rate_function") if cls == "RateEvolution" else None
                    lo, hi = c.scalar("minimum"), c.scalar("maximum")
                    h0, om, zt, n = c.real("h0"), c.real("omega_m"), c.real("z_grid_max"), c.sym("grid_size", lo=3)

                    def new():
                        return c.new(D + cls, *([rate] if rate else []), lo, hi, kind, h0=h0, omega_m=om, z_grid_max=zt,
                                     grid_size=n)
                    if op == "log_prob":
                        x = c.tensor("value", ["N"], "f32")
                        return c.pair(lambda: c.method(new(), op, x),
                                      lambda: c.ref("distributions.volume_score", lo, hi, kind, h0, om, zt, n, rate, x))
                    size = (c.sym("N"),)
                    return c.pair(lambda: c.method(new(), op, size),
                                  lambda: c.ref("distributions.volume_sample", lo, hi, kind, h0, om, zt, n, rate, size))


_volume()
