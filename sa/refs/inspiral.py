"""Reference program for the TaylorF2 approximant (interpreted, never executed)."""
import math
import torch
from ml4gw.constants import MPC_SEC, MTSUN_SI, PI
from ml4gw.constants import EulerGamma as GAMMA
from ref.bursts import components


def series(m1, m2, chi1, chi2):
    """(c_k, d_k), k = 0..7: phase 3 / (128 eta) v^-5 sum (c_k + d_k log v) v^k to 3.5PN for aligned spins of black
    holes (XLALSimInspiralPNPhasing_F2; spin-orbit of arXiv:1303.7412 in the total and difference of the spins)."""
    M = m1 + m2
    a, b = m1 / M, m2 / M
    eta = a * b
    S = a ** 2 * chi1 + b ** 2 * chi2
    D = (a - b) * (b * chi2 - a * chi1)
    gamma = (554345 / 1134 + 110 * eta / 9) * S + (13915 / 84 - 10 * eta / 3) * D
    sigma = eta * (721 / 48 - 247 / 48) * chi1 * chi2
    ss3 = (32675 / 112 + 5575 / 18 * eta) * eta * chi1 * chi2
    for x, chi in ((a, chi1), (b, chi2)):
        sigma = sigma + (719 / 96 - 233 / 96) * (x * chi) ** 2
        ss3 = ss3 + (47035 / 84 - 410825 / 672 + (2935 / 6 - 1085 / 12) * x + (1255 / 36 - 120) * x ** 2) * (x * chi) ** 2
    log6 = -6848 / 21
    c = [1.0, 0.0,
         5 / 9 * (743 / 84 + 11 * eta),
         -16 * PI + 188 / 3 * S + 25 * D,
         5 / 72 * (3058673 / 7056 + 5429 / 7 * eta + 617 * eta ** 2) - 10 * sigma,
         5 / 9 * (7729 / 84 - 13 * eta) * PI - gamma,
         (11583231236531 / 4694215680 - 640 / 3 * PI ** 2 + log6 * (GAMMA + math.log(4.0))
          + (-15737765635 / 3048192 + 2255 / 12 * PI ** 2) * eta + 76055 / 1728 * eta ** 2 - 127825 / 1296 * eta ** 3
          + PI * (3760 * S + 1490 * D) / 3 + ss3),
         (PI * (77096675 / 254016 + 378515 / 1512 * eta - 74045 / 756 * eta ** 2)
          + (-8980424995 / 762048 + 6586595 * eta / 756 - 305 * eta ** 2 / 36) * S
          - (170978035 / 48384 - 2876425 * eta / 672 - 4735 * eta ** 2 / 144) * D)]
    d = [0.0, 0.0, 0.0, 0.0, 0.0, 5 / 3 * (7729 / 84 - 13 * eta) * PI - 3 * gamma, log6, 0.0]
    return c, d


def column(x):
    return x[:, None] if hasattr(x, "shape") else x


def phase(Mf, m1, m2, chi1, chi2):
    """The phase and its derivative with respect to Mf."""
    c, d = series(m1, m2, chi1, chi2)
    v = (PI * Mf) ** (1 / 3)
    scale = 3 / 128 * (m1 + m2) ** 2 / (m1 * m2)
    psi, slope = 0.0, 0.0
    for k in range(8):
        ck, dk = column(c[k]), column(d[k])
        psi = psi + (ck + dk * torch.log(v)) * v ** (k - 5)
        slope = slope + ((k - 5) * (ck + dk * torch.log(v)) + dk) * v ** (k - 6)
    return psi * scale[:, None], slope * scale[:, None] * PI / (3 * v ** 2)


def amplitude(Mf, m1, m2, eta, distance):
    """Newtonian stationary-phase amplitude from the leading flux and energy derivative."""
    v = (PI * Mf) ** (1 / 3)
    flux = 32 / 5 * eta[:, None] ** 2 * v ** 10
    denergy = -eta[:, None] * v
    scale = -4 * m1 * m2 * MTSUN_SI ** 2 / (distance * MPC_SEC) * (PI / 12) ** 0.5
    return (-denergy / flux) ** 0.5 * v * scale[:, None]


def htilde(f, m1, m2, chi1, chi2, distance, phic, f_ref):
    M = (m1 + m2) * MTSUN_SI
    eta = m1 * m2 / (m1 + m2) ** 2
    Mf = M[:, None] * f
    psi = phase(Mf, m1, m2, chi1, chi2)[0] - phase(M[:, None] * f_ref, m1, m2, chi1, chi2)[0] - 2 * phic[:, None]
    return amplitude(Mf, m1, m2, eta, distance) * torch.exp(-1j * (psi - PI / 4))


def taylorf2(f, chirp_mass, mass_ratio, chi1, chi2, distance, phic, inclination, f_ref):
    n = len(chirp_mass)
    if any([len(x) != n for x in (mass_ratio, chi1, chi2, distance, phic, inclination)]):
        raise ValueError
    m1, m2 = components(chirp_mass, mass_ratio)
    h = htilde(f, m1, m2, chi1, chi2, distance, phic, f_ref)
    c = torch.cos(inclination)[:, None]
    return -1j * c * h, (1 + c ** 2) / 2 * h
