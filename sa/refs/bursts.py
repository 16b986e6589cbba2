"""Reference programs for the ad hoc waveforms and parameter conversions (interpreted, never executed)."""
import torch
from ml4gw.constants import MRSUN, MSUN, MTSUN_SI, PI, C, G, m_per_Mpc


def sine_gaussian(sample_rate, duration, quality, frequency, hrss, phase, eccentricity):
    """XLALSimBurstSineGaussian on times centred on the middle of the segment."""
    t = torch.arange(int(duration * sample_rate), dtype=torch.float64) / sample_rate - duration / 2
    q, f, h, p, e = [v[:, None] for v in (quality, frequency, hrss, phase, eccentricity)]
    a = (2 - e ** 2) ** -0.5
    b = a * (1 - e ** 2) ** 0.5
    cc = q / (4 * f * PI ** 0.5) * (1 + torch.exp(-q ** 2))
    ss = q / (4 * f * PI ** 0.5) * (1 - torch.exp(-q ** 2))
    phi = 2 * PI * f * t
    env = torch.exp(-phi ** 2 / (2 * q ** 2))
    plus = h * a * env * torch.cos(phi - p) / (cc * torch.cos(p) ** 2 + ss * torch.sin(p) ** 2) ** 0.5
    cross = h * b * env * torch.sin(phi - p) / (cc * torch.sin(p) ** 2 + ss * torch.cos(p) ** 2) ** 0.5
    return cross.to(frequency.dtype), plus.to(frequency.dtype)


def ringdown(sample_rate, duration, frequency, quality, epsilon, phase, inclination, distance):
    """l = m = 2 damped sinusoid radiating a fraction epsilon of the mass (Creighton 1999; arXiv:0905.1654)."""
    t = torch.arange(int(duration * sample_rate), dtype=torch.float64) / sample_rate
    f, q, eps, p, i, d = [v[:, None] for v in (frequency, quality, epsilon, phase, inclination, distance)]
    g = 1 - 0.63 * (2 / q) ** (2 / 3)
    mass = C ** 3 / (2 * PI * G * f) * g
    spin = 1 - (2 / q) ** (20 / 9)
    ga = 1 - 0.63 * (1 - spin) ** 0.3
    big = 1 + 7 / (24 * q ** 2)
    amp = (2.5 * eps) ** 0.5 * G * mass / C ** 2 / (q * big * ga) ** 0.5 / (d * m_per_Mpc)
    env = torch.exp(-PI * f * t / q)
    psi = 2 * PI * f * t + p
    plus = amp * (1 + torch.cos(i) ** 2) * env * torch.cos(psi)
    cross = amp * 2 * torch.cos(i) * env * torch.sin(psi)
    return cross.double(), plus.double()


def components(chirp_mass, mass_ratio):
    """m1, m2 = q m1 with (m1 m2)^(3/5) / (m1 + m2)^(1/5) the chirp mass."""
    m1 = chirp_mass * (1 + mass_ratio) ** 0.2 / mass_ratio ** 0.6
    return m1, m1 * mass_ratio


def turn_z(a, v):
    x, y, z = v
    c, s = torch.cos(a), torch.sin(a)
    return (x * c - y * s, x * s + y * c, z)


def turn_y(a, v):
    x, y, z = v
    c, s = torch.cos(a), torch.sin(a)
    return (x * c + z * s, y, z * c - x * s)


def rotate_z(a, x, y, z):
    return turn_z(a, (x, y, z))


def rotate_y(a, x, y, z):
    return turn_y(a, (x, y, z))


def orbital_momentum(total_mass, eta, v):
    return total_mass ** 2 * eta / v


def orbital_momentum_2pn(eta):
    return 3 / 2 + eta / 6


def spins(theta_jn, phi_jl, tilt_1, tilt_2, phi_12, a_1, a_2, mass_1, mass_2, f_ref, phi_ref):
    """XLALSimInspiralTransformPrecessingNewInitialConditions."""
    if f_ref <= 0:
        raise ValueError
    ln = (torch.zeros_like(tilt_1), torch.zeros_like(tilt_1), torch.ones_like(tilt_1))
    s1 = (torch.sin(tilt_1) * torch.cos(phi_ref), torch.sin(tilt_1) * torch.sin(phi_ref), torch.cos(tilt_1))
    az = phi_12 + phi_ref
    s2 = (torch.sin(tilt_2) * torch.cos(az), torch.sin(tilt_2) * torch.sin(az), torch.cos(tilt_2))
    m = mass_1 + mass_2
    eta = mass_1 * mass_2 / m ** 2
    v = (m * MTSUN_SI * PI * f_ref) ** (1 / 3)
    lmag = m ** 2 * eta / v * (1 + v ** 2 * (3 / 2 + eta / 6))
    w1, w2 = mass_1 ** 2 * a_1, mass_2 ** 2 * a_2
    jx = w1 * s1[0] + w2 * s2[0]
    jy = w1 * s1[1] + w2 * s2[1]
    jz = lmag + w1 * s1[2] + w2 * s2[2]
    j = (jx ** 2 + jy ** 2 + jz ** 2) ** 0.5
    theta0 = torch.acos(jz / j)
    phi0 = torch.atan2(jy / j, jx / j)
    # J to the z axis, then the line of nodes of L to its azimuth about J
    s1 = turn_z(phi_jl - PI, turn_y(-theta0, turn_z(-phi0, s1)))
    s2 = turn_z(phi_jl - PI, turn_y(-theta0, turn_z(-phi0, s2)))
    ln = turn_z(phi_jl - PI, turn_y(-theta0, ln))
    n = (torch.zeros_like(theta_jn), torch.sin(theta_jn), torch.cos(theta_jn))
    incl = torch.acos(n[0] * ln[0] + n[1] * ln[1] + n[2] * ln[2])
    theta_l = torch.acos(ln[2])
    phi_l = torch.atan2(ln[1], ln[0])
    # L to the z axis, then the line of sight into the y-z plane
    s1 = turn_y(-theta_l, turn_z(-phi_l, s1))
    s2 = turn_y(-theta_l, turn_z(-phi_l, s2))
    n = turn_y(-theta_l, turn_z(-phi_l, n))
    phi_n = torch.atan2(n[1], n[0])
    s1 = turn_z(PI / 2 - phi_n - phi_ref, s1)
    s2 = turn_z(PI / 2 - phi_n - phi_ref, s2)
    return (incl, a_1 * s1[0], a_1 * s1[1], a_1 * s1[2], a_2 * s2[0], a_2 * s2[1], a_2 * s2[2])


def t2_0pn(total_mass, eta):
    return -5 * (G * total_mass / C ** 3) / (256 * eta)


def t2_2pn(eta):
    return 7.43 / 2.52 + 11 / 3 * eta


def t2_4pn(eta):
    return 30.58673 / 5.08032 + 54.29 / 5.04 * eta + 61.7 / 7.2 * eta ** 2


def t3_0pn(total_mass):
    return 1 / (8 * torch.pi * G * total_mass / C ** 3)


def chirp_time_bound(fstart, m1, m2, s1, s2):
    """XLALSimInspiralChirpTimeBound."""
    m = m1 + m2
    eta = m1 * m2 / m ** 2
    chi = torch.maximum(torch.abs(s1), torch.abs(s2))
    v = (torch.pi * G * m * fstart) ** (1 / 3) / C
    series = 1 + t2_2pn(eta) * v ** 2 + 226 / 15 * chi * v ** 3 + t2_4pn(eta) * v ** 4
    return (torch.abs(t2_0pn(m, eta)) * v ** -8 * series).float()


def chirp_start_frequency_bound(tchirp, m1, m2):
    """XLALSimInspiralChirpStartFrequencyBound."""
    m = m1 + m2
    eta = m1 * m2 / m ** 2
    return (t3_0pn(m) * (5 * m * (MTSUN_SI / MSUN) / (eta * tchirp)) ** (3 / 8)).float()


def final_spin_bound(s1, s2):
    """XLALSimInspiralFinalBlackHoleSpinBound."""
    s = 0.686 + 0.15 * (s1 + s2)
    s = torch.maximum(torch.maximum(s, torch.abs(s1)), torch.abs(s2))
    return torch.clamp(s, max=0.998)


def merge_time_bound(m1, m2):
    """XLALSimInspiralMergeTimeBound."""
    return (2 * torch.pi * 9 * (m1 + m2) * MRSUN / MSUN / (C / 3)).float()


def ringdown_time_bound(m, s):
    """XLALSimInspiralRingdownTimeBound."""
    omega = (1.5251 - 1.1568 * (1 - s) ** 0.1292) / (m * MTSUN_SI / MSUN)
    q = 0.7 + 1.4187 * (1 - s) ** -0.4990
    return (11 * 2 * q / omega).float()


def frequency_isco(m1, m2):
    """Schwarzschild ISCO of the total mass, with the radius of 9 M the conditioning uses."""
    return 1 / (9 ** 1.5 * torch.pi * (m1 + m2) * MTSUN_SI / MSUN).float()
