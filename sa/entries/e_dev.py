"""Entry points for device placement (P03) and for saved state (P06)."""
from . import entry
from .e_ref import pair

T = "ml4gw.transforms."
SL = "ml4gw.utils.slicing."


def dev(name):
    return entry("device:" + name, pair=True, dev=True, group="device", batch=[], chan=[], time=[])


def _indices():
    for xs, ix in ((["T"], ["N"]), (["C", "T"], ["N"]), (["C", "T"], ["N", "C"]), (["B", "C", "T"], ["B"]),
                   (["B", "C", "T"], ["B", "C"])):
        @dev("slice_kernels[%s by %s,indices on the cpu]" % (xs, ix))
        def spec(c, xs=xs, ix=ix):
            x = c.tensor("x", xs)
            i = c.tensor("idx", ix, "i64", device="cpu")
            c.begin()
            return c.call(SL + "slice_kernels", x, i, c.sym("kernel_size", lo=1))


_indices()


def _masks():
    for which in ("highpass", "lowpass", "both"):
        for fn in ("compute_ifo_snr", "compute_network_snr"):
            @dev("%s[%s mask on the cpu]" % (fn, which))
            def spec(c, fn=fn, which=which):
                n = c.named("T", 2 * (c.poly(c.sym("F", lo=2)) - 1))
                r = c.tensor("responses", ["B", "C", n])
                psd = c.tensor("psd", ["C", "F"], "f64")
                hp = c.tensor("highpass", ["F"], "bool", device="cpu") if which != "lowpass" else None
                lp = c.tensor("lowpass", ["F"], "bool", device="cpu") if which != "highpass" else None
                c.begin()
                return c.call("ml4gw.gw." + fn, r, psd, c.real("sample_rate"), hp, lp)


_masks()


def _spline():
    for out in (True, False):
        @dev("SplineInterpolate1D[built on the device,x_out %s]" % out)
        def spec(c, out=out):
            xi, xo = c.tensor("x_in", ["W"]), c.tensor("x_out", ["V"])
            Z = c.tensor("Z", ["B", "C", "W"])
            c.begin()
            o = c.new(T + "spline_interpolation.SplineInterpolate1D", xi, x_out=xo if out else None)
            return c.call(o, Z) if out else c.call(o, Z, xo)


_spline()
