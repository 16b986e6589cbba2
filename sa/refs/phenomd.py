"""Reference program for the IMRPhenomD approximant (arXiv:1508.07253; interpreted, never executed)."""
import torch
from ml4gw.constants import MTSUN_SI, PI
from ref.bursts import components
from ref.inspiral import amplitude, column, phase
from ref.phenomd_fits import fit


def chi_pn(delta, eta, chi1, chi2):
    return (1 - 76 / 113 * eta) * (chi1 + chi2) / 2 + delta * (chi1 - chi2) / 2


def mass_difference(eta):
    return torch.sqrt(torch.clamp(1 - 4 * eta, min=0.0))


def final_spin(eta, chi1, chi2):
    d = mass_difference(eta)
    s = ((1 + d) / 2) ** 2 * chi1 + ((1 - d) / 2) ** 2 * chi2
    return (3.4641016151377544 * eta - 4.399247300629289 * eta ** 2 + 9.397292189321194 * eta ** 3
            - 13.180949901606242 * eta ** 4
            + s * (1 + eta * (-0.0850917821418767 - 5.837029316602263 * eta))
            + eta * (s ** 2 * (0.1014665242971878 - 2.0967746996832157 * eta)
                     + s ** 3 * (-1.3546806617824356 + 4.108962025369336 * eta)
                     + s ** 4 * (-0.8676969352555539 + 2.064046835273906 * eta)))


def radiated_energy(eta, chi1, chi2):
    d = mass_difference(eta)
    a, b = ((1 + d) / 2) ** 2, ((1 - d) / 2) ** 2
    s = (a * chi1 + b * chi2) / (a + b)
    p = (0.055974469826360077 * eta + 0.5809510763115132 * eta ** 2 - 0.9606726679372312 * eta ** 3
         + 3.352411249771192 * eta ** 4)
    n = 1 + (-0.0030302335878845507 - 2.0066110851351073 * eta + 7.7050567802399215 * eta ** 2) * s
    return p * n / (1 + (-0.6714403054720589 - 1.4756929437702908 * eta + 7.304676214885011 * eta ** 2) * s)


def interpolate(spins, values, x):
    """Piecewise linear interpolation between the nodes around x."""
    k = torch.clamp(torch.bucketize(x, spins), 1, len(spins) - 1)
    t = (x - spins[k - 1]) / (spins[k] - spins[k - 1])
    return values[k - 1] * (1 - t) + values[k] * t


def ringdown_on_grid(grid, x):
    spins, damp, ring = grid
    if torch.any(x < spins[0]) or torch.any(x > spins[-1]):
        raise RuntimeError
    return interpolate(spins, ring, x), interpolate(spins, damp, x)


def ringdown(grid, eta, chi1, chi2):
    ring, damp = ringdown_on_grid(grid, final_spin(eta, chi1, chi2))
    scale = 1 - radiated_energy(eta, chi1, chi2)
    return ring / scale, damp / scale


def peak(ring, damp, g2, g3):
    """Frequency of the peak of the merger-ringdown amplitude."""
    return torch.abs(ring + damp * (torch.sqrt(torch.clamp(1 - g2 ** 2, min=0.0)) - 1) * g3 / g2)


# -- phase ---------------------------------------------------------------------------

def inspiral_phase(Mf, m1, m2, eta, x, chi1, chi2):
    """TaylorF2 without the 3PN spin-spin term, and four pseudo-PN terms: (value, derivative)."""
    psi, slope = phase(Mf, m1, m2, chi1, chi2)
    M = m1 + m2
    ss3 = (32675 / 112 + 5575 / 18 * eta) * eta * chi1 * chi2
    for y, chi in ((m1 / M, chi1), (m2 / M, chi2)):
        ss3 = ss3 + (47035 / 84 - 410825 / 672 + (2935 / 6 - 1085 / 12) * y + (1255 / 36 - 120) * y ** 2) * (y * chi) ** 2
    w = (3 / 128 * ss3 / eta)[:, None]
    psi = psi - w * (PI * Mf) ** (1 / 3)
    slope = slope - w * PI / 3 * (PI * Mf) ** (-2 / 3)
    for k in range(4):
        s = (fit("sigma%dFit" % (k + 1), eta, x) / eta)[:, None]
        psi = psi + s * Mf ** (1 + k / 3) / (1 + k / 3)
        slope = slope + s * Mf ** (k / 3)
    return psi, slope


def intermediate_phase(Mf, eta, x):
    """(eta times the value, derivative)."""
    b1, b2, b3 = [fit("beta%dFit" % k, eta, x)[:, None] for k in (1, 2, 3)]
    return b1 * Mf + b2 * torch.log(Mf) - b3 / (3 * Mf ** 3), (b1 + b2 / Mf + b3 / Mf ** 4) / eta[:, None]


def ringdown_phase(Mf, eta, x, ring, damp):
    """(eta times the value, derivative)."""
    a1, a2, a3, a4, a5 = [fit("alpha%dFit" % k, eta, x)[:, None] for k in (1, 2, 3, 4, 5)]
    ring, damp = ring[:, None], damp[:, None]
    z = Mf - a5 * ring
    value = a1 * Mf - a2 / Mf + 4 / 3 * a3 * Mf ** 0.75 + a4 * torch.atan(z / damp)
    return value, (a1 + a2 / Mf ** 2 + a3 * Mf ** -0.25 + a4 * damp / (damp ** 2 + z ** 2)) / eta[:, None]


def ringdown_phase_at(Mf, eta, x, ring, damp):
    """The same at one frequency for each member of the batch."""
    value, slope = ringdown_phase(Mf[:, None], eta, x, ring, damp)
    return value[:, 0], slope[:, 0]


def select(Mf, low, high, below, between, above):
    zero = torch.zeros_like(Mf)
    return (torch.where(Mf <= low, below, zero) + torch.where((Mf > low) & (Mf <= high), between, zero)
            + torch.where(Mf > high, above, zero))


def join(Mf, low, high, below, between, above):
    """A C1 function: each later piece is shifted by a line so that values and slopes agree at the joins."""
    f1, f2 = torch.full((Mf.shape[0], 1), low), high[:, None]
    p1, d1 = below(f1)
    q1, e1 = between(f1)
    tilt1 = d1 - e1
    lift1 = p1 - q1 - tilt1 * f1
    q2, e2 = between(f2)
    r2, g2 = above(f2)
    tilt2 = e2 + tilt1 - g2
    lift2 = q2 + lift1 + tilt1 * f2 - r2 - tilt2 * f2
    b, m, a = below(Mf), between(Mf), above(Mf)
    return (select(Mf, f1, f2, b[0], m[0] + lift1 + tilt1 * Mf, a[0] + lift2 + tilt2 * Mf),
            select(Mf, f1, f2, b[1], m[1] + tilt1, a[1] + tilt2))


def over(pair, eta):
    return pair[0] / eta[:, None], pair[1]


def full_phase(Mf, m1, m2, eta, chi1, chi2, x, ring, damp):
    return join(Mf, 0.018, ring / 2, lambda f: inspiral_phase(f, m1, m2, eta, x, chi1, chi2),
                lambda f: over(intermediate_phase(f, eta, x), eta),
                lambda f: over(ringdown_phase(f, eta, x, ring, damp), eta))


# -- amplitude -----------------------------------------------------------------------

def inspiral_amp(Mf, eta, delta, x, chi1, chi2):
    """Post-Newtonian series in (pi Mf)^(1/3) with three calibrated terms: (value, derivative)."""
    s, a = (chi1 + chi2) / 2, (chi1 - chi2) / 2
    pn = [1.0, 0.0,
          -323 / 224 + 451 / 168 * eta,
          27 / 8 * delta * a + (27 / 8 - 11 / 6 * eta) * s,
          (-27312085 / 8128512 - 1975055 / 338688 * eta + 105271 / 24192 * eta ** 2 + (-81 / 32 + 8 * eta) * a ** 2
           - 81 / 16 * delta * a * s + (-81 / 32 + 17 / 8 * eta) * s ** 2),
          (-85 / 64 * PI + 85 / 16 * PI * eta + delta * (285197 / 16128 - 1579 / 4032 * eta) * a
           + (285197 / 16128 - 15317 / 672 * eta - 2227 / 1008 * eta ** 2) * s),
          (-177520268561 / 8583708672 + (545384828789 / 5007163392 - 205 / 48 * PI ** 2) * eta
           - 3248849057 / 178827264 * eta ** 2 + 34473079 / 6386688 * eta ** 3
           + (1614569 / 64512 - 1873643 / 16128 * eta + 2167 / 42 * eta ** 2) * a ** 2
           + (31 / 12 - 7 / 3 * eta) * PI * s
           + (1614569 / 64512 - 61391 / 1344 * eta + 57451 / 4032 * eta ** 2) * s ** 2
           + delta * a * (31 / 12 * PI + (1614569 / 32256 - 165961 / 2688 * eta) * s))]
    value, slope = 0.0, 0.0
    for k in range(10):
        c = pn[k] * PI ** (k / 3) if k < 7 else fit("rho%d_fun" % (k - 6), eta, x)
        value = value + column(c) * Mf ** (k / 3)
        slope = slope + column(c) * (k / 3) * Mf ** (k / 3 - 1)
    return value, slope


def ringdown_amp(Mf, ring, damp, g1, g2, g3):
    ring, damp, g1, g2, g3 = [v[:, None] for v in (ring, damp, g1, g2, g3)]
    z, w = Mf - ring, damp * g3
    value = g1 * w / (z ** 2 + w ** 2) * torch.exp(-g2 * z / w)
    return value, -value * (2 * z / (z ** 2 + w ** 2) + g2 / w)


def quartic_conditions(model, f1, f2, f3, v1, v2, v3, d1, d2):
    """What the five coefficients are for: three values and two slopes."""
    c = model.delta_values(f1, f2, f3, v1, v2, v3, d1, d2)
    value = lambda f: c[0] + c[1] * f + c[2] * f ** 2 + c[3] * f ** 3 + c[4] * f ** 4
    slope = lambda f: c[1] + 2 * c[2] * f + 3 * c[3] * f ** 2 + 4 * c[4] * f ** 3
    return value(f1), slope(f1), value(f2), value(f3), slope(f3)


def quartic_targets(f1, f2, f3, v1, v2, v3, d1, d2):
    return v1, d1, v2, v3, d2


def intermediate_amp(Mf, model, eta, delta, x, chi1, chi2, ring, damp, g1, g2, g3, top):
    """The quartic through the inspiral at 0.014, the collocation value half-way and the ringdown at the peak."""
    f1 = torch.full((Mf.shape[0], 1), 0.014)
    f3 = top[:, None]
    v1, d1 = inspiral_amp(f1, eta, delta, x, chi1, chi2)
    v3, d3 = ringdown_amp(f3, ring, damp, g1, g2, g3)
    v2 = fit("AmpIntColFitCoeff", eta, x)[:, None]
    c = model.delta_values(f1, (f1 + f3) / 2, f3, v1, v2, v3, d1, d3)
    value = c[0] + c[1] * Mf + c[2] * Mf ** 2 + c[3] * Mf ** 3 + c[4] * Mf ** 4
    return value, c[1] + 2 * c[2] * Mf + 3 * c[3] * Mf ** 2 + 4 * c[4] * Mf ** 3


def full_amp(Mf, model, eta, delta, chi1, chi2, x, ring, damp, g1, g2, g3, top):
    f1 = torch.full((Mf.shape[0], 1), 0.014)
    i = inspiral_amp(Mf, eta, delta, x, chi1, chi2)
    m = intermediate_amp(Mf, model, eta, delta, x, chi1, chi2, ring, damp, g1, g2, g3, top)
    r = ringdown_amp(Mf, ring, damp, g1, g2, g3)
    return select(Mf, f1, top[:, None], i[0], m[0], r[0]), select(Mf, f1, top[:, None], i[1], m[1], r[1])


# -- waveform ------------------------------------------------------------------------

def htilde(model, f, chirp_mass, mass_ratio, chi1, chi2, distance, phic, f_ref):
    total = chirp_mass * (1 + mass_ratio) ** 1.2 / mass_ratio ** 0.6
    m1, m2 = total / (1 + mass_ratio), total * mass_ratio / (1 + mass_ratio)
    eta = (chirp_mass / total) ** (5 / 3)
    delta = mass_difference(eta)
    x = chi_pn(delta, eta, chi1, chi2) - 1
    ring, damp = ringdown((model.qnmdata_a, model.qnmdata_fdamp, model.qnmdata_fring), eta, chi1, chi2)
    g1, g2, g3 = [fit("gamma%d_fun" % k, eta, x) for k in (1, 2, 3)]
    top = peak(ring, damp, g2, g3)
    t0 = ringdown_phase_at(top, eta, x, ring, damp)[1]
    M = (total * MTSUN_SI)[:, None]
    Mf, Mf0 = M * f, M * f_ref
    psi = (full_phase(Mf, m1, m2, eta, chi1, chi2, x, ring, damp)[0]
           - full_phase(Mf0, m1, m2, eta, chi1, chi2, x, ring, damp)[0]
           - 2 * phic[:, None] - (Mf - Mf0) * t0[:, None])
    amp = full_amp(Mf, model, eta, delta, chi1, chi2, x, ring, damp, g1, g2, g3, top)[0]
    return -amplitude(Mf, m1, m2, eta, distance) * amp * torch.exp(-1j * psi)


def waveform(model, f, chirp_mass, mass_ratio, chi1, chi2, distance, phic, inclination, f_ref):
    n = len(chirp_mass)
    if any([len(x) != n for x in (mass_ratio, chi1, chi2, distance, phic, inclination)]):
        raise ValueError
    h = htilde(model, f, chirp_mass, mass_ratio, chi1, chi2, distance, phic, f_ref)
    c = torch.cos(inclination)[:, None]
    return -1j * c * h, (1 + c ** 2) / 2 * h


def square(x):
    return x * x
