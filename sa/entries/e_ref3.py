"""Paired entry points of spline interpolation."""
from .e_ref import pair

S = "ml4gw.transforms.spline_interpolation."


def sites(c, name, k, few):
    """A number of sites: one of the smallest admissible ones, or any number that keeps the two ends' knots apart."""
    return few if isinstance(few, int) else c.sym(name, lo=2 * k + 4)


def _one():
    for k in (1, 2, 3, 5):
        for where in ("new", "call", "both", "none"):
            for nd in (1, 2, 3, 4, 5):
                if (k != 3 and (where != "call" or nd != 4)) or (nd != 4 and where in ("both", "none")):
                    continue
                if where == "new" and nd not in (2, 4):
                    continue

                for few in (None,) + (tuple(range(k + 2, 2 * k + 4)) if nd == 4 and where == "call" else ()):
                    @pair("P17:SplineInterpolate1D[k=%d,sites=%s,%dD%s]" % (k, where, nd, ",N=%d" % few if few else ""), "P17")
                    def spec(c, k=k, where=where, nd=nd, few=few):
                        s = c.real("s")
                        n = sites(c, "N", k, few)
                        x = c.tensor("x_in", [n], "f64")
                        a = c.tensor("x_out", ["M"], "f64") if where in ("new", "both") else None
                        b = c.tensor("x_out_call", ["L"], "f64") if where in ("call", "both") else None
                        z = c.tensor("Z", (["A", "B", "C", "R"])[5 - nd:] + [n])

                        def subject():
                            o = c.new(S + "SplineInterpolate1D", x, k, s, a)
                            return c.call(o, z, b)
                        return c.pair(subject, lambda: c.ref("spline.spline_1d", x, k, s, z, b if b is not None else a))
    for bad in ("length", "short"):
        @pair("P17:SplineInterpolate1D[bad %s]" % bad, "P17")
        def spec(c, bad=bad):
            x = c.tensor("x_in", [4 if bad == "short" else 7])
            z = c.tensor("Z", ["B", "C", "R", 9 if bad == "length" else 4])
            b = c.tensor("x_out", ["L"])
            return c.pair(lambda: c.call(c.new(S + "SplineInterpolate1D", x), z, b),
                          lambda: c.ref("spline.spline_1d", x, 3, 0.0, z, b))


_one()


def _two():
    for kx, ky in ((3, 3), (1, 2), (2, 1)):
        for wx in ("new", "call", "both", "none"):
            for wy in ("new", "call", "both", "none"):
                if "none" in (wx, wy) and (wx, wy) not in (("none", "call"), ("call", "none"), ("none", "new")):
                    continue
                for nd in (1, 2, 3, 4, 5):
                    if (kx, wx, wy) != (3, "call", "call") and nd != 4 or kx != 3 and (wx == "both" or wy == "both" or "none" in (wx, wy)):
                        continue

                    small = [None]
                    if (wx, wy, nd) == ("call", "call", 4):
                        small += [(i, "large") for i in range(kx + 2, 2 * kx + 4)] + [("large", i) for i in range(ky + 2, 2 * ky + 4)]
                    for few in small:
                        @pair("P17:SplineInterpolate2D[k=%d,%d,sites=%s,%s,%dD%s]" % (kx, ky, wx, wy, nd, ",N=%s,R=%s" % few if few else ""), "P17")
                        def spec(c, kx=kx, ky=ky, wx=wx, wy=wy, nd=nd, few=few or (None, None)):
                            sx, sy = c.real("sx"), c.real("sy")
                            n, r = sites(c, "N", kx, few[0]), sites(c, "R", ky, few[1])
                            x, y = c.tensor("x_in", [n], "f64"), c.tensor("y_in", [r], "f64")
                            xa = c.tensor("x_out", ["M"], "f64") if wx in ("new", "both") else None
                            ya = c.tensor("y_out", ["P"], "f64") if wy in ("new", "both") else None
                            xb = c.tensor("x_out_call", ["L"], "f64") if wx in ("call", "both") else None
                            yb = c.tensor("y_out_call", ["Q"], "f64") if wy in ("call", "both") else None
                            z = c.tensor("Z", ((["A", "B", "C"])[5 - nd:] + [r, n])[-nd:])

                            def subject():
                                o = c.new(S + "SplineInterpolate2D", x, y, kx, ky, sx, sy, xa, ya)
                                return c.call(o, z, xb, yb)
                            return c.pair(subject, lambda: c.ref("spline.spline_2d", x, y, kx, ky, sx, sy, z,
                                                                 xb if xb is not None else xa, yb if yb is not None else ya))
    for bad in ("x", "y", "few x", "few y"):
        @pair("P17:SplineInterpolate2D[bad %s]" % bad, "P17")
        def spec(c, bad=bad):
            x = c.tensor("x_in", [4 if bad == "few x" else 7])
            y = c.tensor("y_in", [4 if bad == "few y" else 8])
            z = c.tensor("Z", ["B", "C", 9 if bad == "y" else 8, 9 if bad == "x" else 7])
            xo, yo = c.tensor("x_out", ["L"]), c.tensor("y_out", ["M"])
            return c.pair(lambda: c.call(c.new(S + "SplineInterpolate2D", x, y), z, xo, yo),
                          lambda: c.ref("spline.spline_2d", x, y, 3, 3, 0.0, 0.0, z, xo, yo))


_two()
