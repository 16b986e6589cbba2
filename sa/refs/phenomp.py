"""Reference program for the precessing approximant IMRPhenomPv2 (arXiv:1308.3271, arXiv:1408.1810, LALSimIMRPhenomP.c
NNLO angles; interpreted, never executed). Body 1 is the heavier one here; where the repository's methods take the
lighter body first, the entry points exchange the arguments."""
import torch
from ml4gw.constants import MPC_SEC, MTSUN_SI, PI
from ref.bursts import turn_y, turn_z
from ref.phenomd import chi_pn, final_spin, full_amp, full_phase, mass_difference, peak, radiated_energy
from ref.phenomd_fits import fit


def orbital_momentum(v, eta):
    """2PN orbital angular momentum of a circular orbit, total mass one."""
    x = v ** 2
    return eta * (1 + (3 / 2 + eta / 6) * x + (27 / 8 - 19 / 8 * eta - eta ** 2 / 24) * x ** 2) / torch.sqrt(x)


def half_angle(v, spin, eta, perp):
    """cos and sin of half the opening angle: tan(beta) = S_perp / (L + S_parallel)."""
    t = perp / (orbital_momentum(v, eta) + spin)
    c = 1 / torch.sqrt(1 + t ** 2)
    return torch.sqrt((1 + c) / 2), torch.sqrt((1 - c) / 2)


def half_angle_rows(v, spin, eta, perp):
    c, s = half_angle(v, spin, eta, perp)
    return c.mT, s.mT


def harmonic(theta, m):
    """Spin weight -2, l = 2, azimuth zero."""
    c, s = torch.cos(theta), torch.sin(theta)
    if m == -2:
        return (5 / (64 * PI)) ** 0.5 * (1 - c) ** 2
    if m == -1:
        return (5 / (16 * PI)) ** 0.5 * s * (1 - c)
    if m == 0:
        return (15 / (32 * PI)) ** 0.5 * s ** 2
    if m == 1:
        return (5 / (16 * PI)) ** 0.5 * s * (1 + c)
    if m == 2:
        return (5 / (64 * PI)) ** 0.5 * (1 + c) ** 2
    raise ValueError


def series(q, chil, chip):
    """Coefficients of omega^-1, omega^-2/3, omega^-1/3, log(omega), omega^1/3 in the angle alpha, and, without the
    in-plane spin, epsilon. q >= 1; the lighter body has the unit-mass fraction 1 / (1 + q)."""
    b = q / (1 + q)
    a = 1 / (1 + q)
    d = a - b
    r = d / b
    eta = a * b
    s = b * chil
    k = (chip * b ** 2 / eta) ** 2
    one = -35 / 192 - 5 / 64 * r
    two = -s / (128 * eta) * (15 * d + 35 * b)
    three = (-5515 / 3072 - 4555 / 7168 * r - 515 / 384 * eta - 15 / 256 * r ** 2 * eta - 175 / 256 * r * eta)
    log = (-35 / 48 * PI - 5 / 16 * PI * r + 5 / 16 * d ** 2 * chil + 5 / 3 * d * s + 2545 / 1152 * b * s
           + (2035 / 21504 * d + 2995 / 9216 * b) * s / eta)
    five = (4.318908476114694 + 27895885 / 21676032 * r + 39695 / 86016 * eta + 1615 / 28672 * r ** 2 * eta
            - 265 / 14336 * r * eta + 955 / 576 * eta ** 2 + 15 / 1024 * r ** 3 * eta ** 2 + 35 / 256 * r ** 2 * eta ** 2
            + 2725 / 3072 * r * eta ** 2 - (15 / 16 * d + 35 / 16 * b) * PI * s / eta
            + (375 / 256 * d ** 2 + 1815 / 256 * d * b + 1645 / 192 * b ** 2) * s ** 2 / eta)
    epsilon = [one, two, three, log, five]
    alpha = [one, two,
             three - k * (15 / 128 * r + 35 / 128),
             log - k * (5 / 128 * d + 35 / 384 * b) * s / eta,
             five - k ** 2 * (15 / 512 * r + 35 / 512)
             + k * (-485 / 14336 * r + 475 / 6144 + 15 / 256 * r ** 2 * eta + 145 / 512 * r * eta + 575 / 1536 * eta)
             + k * (15 / 128 * r + 35 / 128) * (s * b / eta) ** 2]
    return alpha, epsilon


def coefficients(q, chil, chip):
    alpha, epsilon = series(q, chil, chip)
    out = {}
    for n in range(5):
        out["alphacoeff%d" % (n + 1)] = alpha[n]
        out["epsiloncoeff%d" % (n + 1)] = epsilon[n]
    return out


def angle(c, omega):
    w = omega ** (1 / 3)
    return c[0] / omega + c[1] / w ** 2 + c[2] / w + c[3] * torch.log(omega) + c[4] * w


def frames(m1, m2, f_ref, phic, inclination, s1, s2):
    """(chi1_l, chi2_l, chi_p, theta_JN, alpha0, phi_aligned, zeta): the source frame (z along the orbital momentum)
    turned so that the total momentum J is along z and the line of sight N in the x > 0 half of the xz plane."""
    M = m1 + m2
    p1, p2 = [m ** 2 * torch.sqrt(s[0] ** 2 + s[1] ** 2) for m, s in ((m1, s1), (m2, s2))]
    a1, a2 = 2 + 3 / 2 * m2 / m1, 2 + 3 / 2 * m1 / m2
    chip = torch.maximum(a1 * p1, a2 * p2) / (a1 * m1 ** 2)
    v = (PI * M * MTSUN_SI * f_ref) ** (1 / 3)
    J = [m1 ** 2 * s1[k] + m2 ** 2 * s2[k] for k in range(3)]
    J[2] = J[2] + M ** 2 * orbital_momentum(v, m1 * m2 / M ** 2)
    theta = torch.acos(J[2] / torch.sqrt(J[0] ** 2 + J[1] ** 2 + J[2] ** 2))
    phi = torch.arctan2(J[1], J[0])
    to_j = lambda x: turn_y(-theta, turn_z(-phi, x))
    c, s = torch.cos(inclination), torch.sin(inclination)
    N = (s * torch.cos(PI / 2 - phic), s * torch.sin(PI / 2 - phic), c)
    X = (-c * torch.sin(phic), -c * torch.cos(phic), s)
    n = to_j(N)
    kappa = -torch.arctan2(n[1], n[0])
    L = turn_z(kappa, to_j((0, 0, 1)))
    n, X = turn_z(kappa, n), turn_z(kappa, to_j(X))
    zeta = torch.arctan2(X[0] * n[2] - X[2] * n[0], -X[1])
    return s1[2], s2[2], chip, torch.acos(n[2]), torch.arctan2(L[1], L[0]), -phi, zeta


def frames_light_first(m1, m2, f_ref, phic, inclination, s1x, s1y, s1z, s2x, s2y, s2z):
    c2, c1, *rest = frames(m2, m1, f_ref, phic, inclination, (s2x, s2y, s2z), (s1x, s1y, s1z))
    return c1, c2, *rest


def remnant_spin(m1, m2, chi1, chi2, chip):
    """The aligned remnant spin with the in-plane spin, carried by the heavier body, added in quadrature."""
    M = m1 + m2
    eta = m1 * m2 / M ** 2
    af = final_spin(eta, chi1, chi2)
    return torch.copysign(torch.ones_like(af), af) * torch.sqrt(af ** 2 + (chip * (m1 / M) ** 2) ** 2)


def line(x, nodes, values):
    """The straight line through the two nodes around x, x in (nodes[0], nodes[-1]]."""
    k = torch.searchsorted(nodes, x) - 1
    slope = (values[1:] - values[:-1]) / (nodes[1:] - nodes[:-1])
    return values[:-1][k] + slope[k] * (x - nodes[:-1][k])


def line_any(x, nodes, values):
    return line(x.flatten(), nodes, values).reshape(x.shape)


def ringdown(grid, m1, m2, chi1, chi2, chip):
    """Ringdown and damping frequency in Hz for masses in solar masses."""
    a = remnant_spin(m1, m2, chi1, chi2, chip)
    s1, s2 = m1 * MTSUN_SI, m2 * MTSUN_SI
    M = s1 + s2
    lost = 1 - radiated_energy(s1 * s2 / M ** 2, chi1, chi2)
    return line(a, grid[0], grid[2]) / lost / M, line(a, grid[0], grid[1]) / lost / M


def leading_amplitude(Mf, eta):
    return torch.sqrt(2 / 3 * eta)[:, None] * Mf ** (-7 / 6) * PI ** (-1 / 6)


def aligned(model, f, m1, m2, eta, delta, chi1, chi2, chip, phic, M, x, distance):
    """The non-precessing waveform with the precessing remnant, and minus the slope of its phase at ringdown."""
    s = M * MTSUN_SI
    fr, fd = ringdown((model.qnmdata_a, model.qnmdata_fdamp, model.qnmdata_fring), m1, m2, chi1, chi2, chip)
    ring, damp = s * fr, s * fd
    g1, g2, g3 = [fit("gamma%d_fun" % k, eta, x) for k in (1, 2, 3)]
    Mf = s[:, None] * f
    psi = lambda grid: full_phase(grid, m1, m2, eta, chi1, chi2, x, ring, damp)[0]
    top = peak(ring, damp, g2, g3)
    amp = full_amp(Mf, model, eta, delta, chi1, chi2, x, ring, damp, g1, g2, g3, top)[0]
    amp = amp * leading_amplitude(Mf, eta) * (s ** 2 / (distance * MPC_SEC))[:, None]
    h = amp * torch.exp(-1j * (psi(Mf) - (phic + PI / 4)[:, None]))
    n = 1000
    near = psi(s[:, None] * (fr[:, None] * torch.linspace(0.8, 1.2, n)))
    step = (1.2 * fr - 0.8 * fr) / (n - 1)
    lo, hi = (near[:, 500] - near[:, 498]) / (2 * step), (near[:, 501] - near[:, 499]) / (2 * step)
    return h, -(lo + hi) / 2


def twist(f, h, eta, chi1, chi2, chip, M, alpha_c, epsilon_c, Y, alpha0, epsilon0):
    """h_{2,+-2} of the co-precessing frame turned into the J frame; body 1 the heavier."""
    q = (1 + mass_difference(eta) - 2 * eta) / (2 * eta)
    a, b = q / (1 + q), 1 / (1 + q)
    col = lambda v: v[:, None]
    omega = PI * (f * MTSUN_SI * M[:, None])
    alpha = angle([col(v) for v in alpha_c], omega) - col(alpha0)
    epsilon = angle([col(v) for v in epsilon_c], omega) - col(epsilon0)
    c, s = half_angle(omega ** (1 / 3), col(chi1 * a ** 2 + chi2 * b ** 2), col(eta), col(chip * a ** 2))
    d = [c ** 4, 2 * c ** 3 * s, 6 ** 0.5 * c ** 2 * s ** 2, 2 * c * s ** 3, s ** 4]
    e = torch.exp(1j * alpha)
    up, down = 0.0, 0.0
    for k in range(5):
        m = k - 2
        up = up + (-1) ** k * e ** -m * d[k] * col(Y[k])
        down = down + e ** m * d[4 - k] * col(torch.conj(Y[k]))
    w = torch.exp(-2j * epsilon) * h / 2
    return w * (up + down), w * 1j * (up - down)


def reduced(q, chil, chip, eta, omega):
    alpha, epsilon = series(q, chil, chip)
    return alpha, epsilon, angle(alpha, omega), angle(epsilon, omega)


def waveform(model, f, chirp_mass, mass_ratio, s1x, s1y, s1z, s2x, s2y, s2z, distance, phic, inclination, f_ref, tc=None):
    total = chirp_mass * (1 + mass_ratio) ** 1.2 / mass_ratio ** 0.6
    m1, m2 = total / (1 + mass_ratio), total * mass_ratio / (1 + mass_ratio)
    M = m1 + m2
    chi1, chi2, chip, theta, alpha0, phi, zeta = frames(
        m1, m2, f_ref, phic, inclination, (s1x, s1y, s1z), (s2x, s2y, s2z))
    q = m1 / m2
    eta = m1 * m2 / M ** 2
    delta = mass_difference(eta)
    x = chi_pn(delta, eta, chi1, chi2) - 1
    chil = (1 + q) / q * (m1 * chi1 + m2 * chi2) / M
    alpha, epsilon, alpha_ref, epsilon_ref = reduced(q, chil, chip, eta, PI * M * MTSUN_SI * f_ref)
    h, slope = aligned(model, f, m1, m2, eta, delta, chi1, chi2, chip, 2 * phi, M, x, distance)
    Y = [harmonic(theta, m) for m in (-2, -1, 0, 1, 2)]
    hp, hc = twist(f, h, eta, chi1, chi2, chip, M, alpha, epsilon, Y, alpha_ref - alpha0, epsilon_ref)
    shift = torch.exp(-1j * f * slope[:, None])
    if tc is not None:
        shift = shift * torch.exp(-2j * PI * f * tc[:, None])
    hp, hc = hp * shift, hc * shift
    c, s = torch.cos(2 * zeta)[:, None], torch.sin(2 * zeta)[:, None]
    return c * hc - s * hp, c * hp + s * hc
