"""Detector response, time delays, matched-filter SNR."""
from ..spec import *  # noqa
from ..algebra import Poly

C_SI = "299792458"


def basis(theta, psi, phi):
    """Polarization basis (m, n) of a source, as component functions."""
    u = [cos(phi) * cos(theta), cos(theta) * sin(phi), -sin(theta)]
    v = [-sin(phi), cos(phi), theta * 0]
    m = [-u[i] * sin(psi) - v[i] * cos(psi) for i in range(3)]
    n = [-u[i] * cos(psi) + v[i] * sin(psi) for i in range(3)]
    return m, n


def poltensor(mode, m, n):
    if mode == "plus":
        return lambda j, k: m[j] * m[k] - n[j] * n[k]
    if mode == "cross":
        return lambda j, k: m[j] * n[k] + n[j] * m[k]
    if mode == "breathing":
        return lambda j, k: m[j] * m[k] + n[j] * n[k]
    raise KeyError(mode)


def antenna(s, theta, psi, phi, i, mode):
    m, n = basis(theta, psi, phi)
    e = poltensor(mode, m, n)
    D = s.t("detector_tensors")
    r = 0
    for j in range(3):
        for k in range(3):
            r = e(j, k) * D(i, j, k) + r
    return r


def seq(options, i):
    """Element i (constant index) of a python list of thunks."""
    return options[int(Poly.cval(i))]()


@spec("P11", r"^compute_antenna_responses\[(?!bad)(.*)\]$")
def antenna_responses(s, m):
    modes = m.group(1).split("|")[0].split(",")
    if not s.returns():
        return s.require(False, "call returns", "raises %s" % s.r.exc)
    th, ps, ph = s.t("dec"), s.t("psi"), s.t("phi")
    for q, mode in enumerate(modes):
        s.expect(s.r.value, [s.P("B"), len(modes), s.P("I")],
                 lambda b, p, i, mode=mode: antenna(s, th(b), ps(b), ph(b), i, mode), "response[%s]" % mode,
                 only=None if len(modes) == 1 else (s.S.free(s.r.value.shape)[0], q, s.S.free(s.r.value.shape)[2]))


def delayed(s, theta, phi, sr, b, i, t, n, f):
    """f(b, i, .) circularly delayed by the whole number of samples of the light travel time to the vertex."""
    v = s.t("detector_vertices")
    om = [sin(theta) * cos(phi), sin(theta) * sin(phi), cos(theta)]
    dot = 0
    for k in range(3):
        dot = om[k] * v(i, k) + dot
    dt = trunc(-dot * (sr / E_(C_SI)))
    x = s.num(t) - dt
    nn = s.num(n)
    j = x - nn * floordiv(x, nn)
    return f(s.idx(j))


def E_(c):
    return E(ev(c))


@spec("P11", r"^shift_responses$")
def shift(s, m):
    if not s.returns():
        return s.require(False, "call returns", "raises %s" % s.r.exc)
    th, ph, R = s.t("dec"), s.t("phi"), s.t("responses")
    s.expect(s.r.value, [s.P("B"), s.P("I"), s.P("T")],
             lambda b, i, t: delayed(s, th(b), ph(b), s.sym("sample_rate"), b, i, t, s.P("T"), lambda j: R(b, i, j)),
             "delayed response")


@spec("P11", r"^compute_observed_strain\[(.*)\]$")
def observed(s, m):
    modes = m.group(1).split("|")[0].split(",") if m.group(1) != "f64 waveforms" else ["plus", "cross"]
    if not s.returns():
        return s.require(False, "call returns", "raises %s" % s.r.exc)
    dec, ps, ph = s.t("dec"), s.t("psi"), s.t("phi")

    def f(b, i, t):
        theta = s.pi / 2 - dec(b)

        def h(j):
            r = 0
            for mode in modes:
                r = antenna(s, theta, ps(b), ph(b), i, mode) * s.t("pol_" + mode)(b, j) + r
            return r
        return delayed(s, theta, ph(b), s.sym("sample_rate"), b, i, t, s.P("T"), h)
    s.expect(s.r.value, [s.P("B"), s.P("I"), s.P("T")], f, "observed strain")


# arms and vertices of the LAL detectors (LALDetectors.h)
GEOM = {
    "H1": (("-0.22389266154", "0.79983062746", "0.55690487831"), ("-0.91397818574", "0.02609403989", "-0.40492342125"),
           ("-2161414.92636", "-3834695.17889", "4600350.22664")),
    "L1": (("-0.95457412153", "-0.14158077340", "-0.26218911324"), ("0.29774156894", "-0.48791033647", "-0.82054461286"),
           ("-74276.0447238", "-5496283.71971", "3224257.01744")),
    "V1": (("-0.70045821479", "0.20848948619", "0.68256166277"), ("-0.05379255368", "-0.96908180549", "0.24080451708"),
           ("4546374.09900", "842989.697626", "4378576.96241")),
    "K1": (("-0.3759040", "-0.8361583", "0.3994189"), ("0.7164378", "0.01114076", "0.6975620"),
           ("-3777336.024", "3484898.411", "3765313.697")),
}


@spec("P11", r"^get_ifo_geometry\[(.*)\]$")
def geometry(s, m):
    ifos = m.group(1).split(",")
    if not s.returns():
        return s.require(False, "call returns", "raises %s" % s.r.exc)
    D, V = s.items()
    for q, ifo in enumerate(ifos):
        x, y, v = GEOM[ifo]
        for j in range(3):
            for k in range(3):
                s.expect(D, [len(ifos), 3, 3], lambda a, b, c: (E_(x[j]) * E_(x[k]) - E_(y[j]) * E_(y[k])) / 2,
                         "detector tensor of %s" % ifo, only=(q, j, k))
            s.expect(V, [len(ifos), 3], lambda a, b: E_(v[j]), "vertex of %s" % ifo, only=(q, j))


@spec("P11", r"^gw\.(plus|cross|breathing|outer)$")
def tensors(s, m):
    a, b = s.t("m"), s.t("n")

    def f(q, j, k):
        if m.group(1) == "outer":
            return a(q, j) * b(q, k)
        M = [a(q, z) for z in range(3)]
        N = [b(q, z) for z in range(3)]
        return poltensor(m.group(1), M, N)(int(j.cval()), int(k.cval()))
    for j in range(3):
        for k in range(3):
            s.expect(s.r.value, [s.P("B"), 3, 3], f, "%s tensor" % m.group(1), only=(s.S.free(s.r.value.shape)[0], Poly.const(j), Poly.const(k)))


# -- SNR ------------------------------------------------------------------------------

def psd_on_grid(s, psd, b, i, k, K):
    """PSD at bin k of the signal's frequency grid (linear interpolation if its length differs)."""
    F = psd.shape[-1].p

    def at(q):
        return psd(*((b, i)[2 - (psd.ndim - 1):] + (q,)))
    if s.I.same(F - K) is True:
        return at(k)
    return s.interp(F, at, k, K)


def rho2(s, b, i, hp, lp):
    from ..algebra import idiv
    R, psd, sr = s.t("responses"), s.t("psd"), s.sym("sample_rate")
    T = s.P("T")
    K = idiv(T, Poly.const(2)) + 1

    def term(k):
        h = s.rfft(T, lambda t: R(b, i, t), k) / sr
        p = (h.re * h.re + h.im * h.im) / psd_on_grid(s, psd, b, i, k, K)
        f = s.num(k) * sr / s.num(T)
        if hp == "f":
            p = p * ge(f, s.sym("highpass"))
        if hp == "m":
            p = p * s.t("highpass")(k)
        if lp == "f":
            p = p * lt(f, s.sym("lowpass"))
        if lp == "m":
            p = p * s.t("lowpass")(k)
        return p
    return 4 * (sr / s.num(T)) * s.sum(K, term)


@spec("P12", r"^(compute_ifo_snr|compute_network_snr|reweight_snrs)\[psd=(\d)D,hp=(\w+),lp=(\w+),(\w+)\]$")
def snr(s, m):
    fn, pn, hp, lp, dt = m.groups()
    if not s.returns():
        # only a mask of the wrong length may be refused
        from ..algebra import idiv
        K = idiv(s.P("T"), Poly.const(2)) + 1
        bad = [n for n, v in (("highpass", hp), ("lowpass", lp)) if v == "m" and s.I.same(s.t(n).shape[-1].p - K) is not True]
        return s.require(bad and s.r.exc.name == "ValueError", "only unfitting masks refused", "raises %s" % s.r.exc)
    B, I, T = s.P("B"), s.P("I"), s.P("T")

    def net(b):
        return sqrt(s.sum(I, lambda i: rho2(s, b, i, hp, lp)))
    if fn == "compute_ifo_snr":
        s.expect(s.r.value, [B, I], lambda b, i: sqrt(rho2(s, b, i, hp, lp)), "detector SNR")
    elif fn == "compute_network_snr":
        s.expect(s.r.value, [B], net, "network SNR")
    else:
        s.expect(s.r.value, [B, I, T], lambda b, i, t: s.t("responses")(b, i, t) * s.t("target_snrs")(b) / net(b), "reweighted")


@spec("P12", r"^reweight_snrs\[scalar target\]$")
def rescale1(s, m):
    if not s.returns():
        return s.require(False, "call returns", "raises %s" % s.r.exc)
    s.expect(s.r.value, [s.P("B"), s.P("I"), s.P("T")],
             lambda b, i, t: s.t("responses")(b, i, t) * s.sym("target") / sqrt(s.sum(s.P("I"), lambda j: rho2(s, b, j, None, None))),
             "reweighted")
