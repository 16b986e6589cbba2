"""Reference densities and inverse-transform samplers (interpreted, never executed).

Every sampler draws one uniform (or normal) variate per sample and inverts the cumulative distribution; every score is
the logarithm of the density of the same distribution, minus infinity outside its range.
"""
import math
import torch
from ml4gw.constants import C


# -- cosine and sine ------------------------------------------------------------------------------

def cosine_sample(low, high, shape):
    u = torch.rand(shape)
    first, last = torch.sin(low), torch.sin(high)
    return torch.arcsin(first + u * (last - first))


def cosine_score(low, high, x):
    inside = (x >= low) & (x <= high)
    return torch.log(torch.cos(x) * inside / (torch.sin(high) - torch.sin(low)))


def sine_sample(low, high, shape):
    """The sine of x is the cosine of x - pi/2."""
    return cosine_sample(low - math.pi / 2, high - math.pi / 2, shape) + math.pi / 2


def sine_score(low, high, x):
    return cosine_score(low - math.pi / 2, high - math.pi / 2, x - math.pi / 2)


# -- uniform in a power or in the logarithm --------------------------------------------------------

def uniform_score(low, high, x):
    inside = (low <= x).float() * (x < high).float()
    return torch.log(inside) - torch.log(torch.as_tensor(high - low))


def log_uniform_sample(low, high, shape):
    u = torch.rand(shape)
    return torch.exp(torch.log(low) + u * (torch.log(high) - torch.log(low)))


def log_uniform_score(low, high, x):
    return uniform_score(torch.log(low), torch.log(high), torch.log(x)) - torch.log(x)


def power_sample(low, high, index, shape):
    """Density proportional to x^index: x^(index + 1) is uniform."""
    if index == 0:
        raise ValueError("uniform")
    if index == -1:
        return log_uniform_sample(low, high, shape)
    n = index + 1
    u = torch.rand(shape)
    return (low ** n + u * (high ** n - low ** n)) ** (1 / n)


def power_score(low, high, index, x):
    if index == 0:
        raise ValueError("uniform")
    if index == -1:
        return log_uniform_score(low, high, x)
    n = index + 1
    y = x ** n
    slope = torch.log(torch.abs(x / (n * y))) + torch.log(torch.abs(torch.as_tensor(n)))
    return uniform_score(low ** n / n, high ** n / n, y / n) - slope


def log_normal_sample(mean, std, shape):
    return torch.exp(mean + std * torch.randn(shape))


def log_normal_score(mean, std, x):
    z = (torch.log(x) - mean) / std
    return -z ** 2 / 2 - torch.log(std) - math.log(math.sqrt(2 * math.pi)) - torch.log(x)


def delta_sample(peak, shape):
    return torch.zeros(shape) + peak


# -- cosmology ---------------------------------------------------------------------------------------

def between(xs, ys, x):
    """Linear interpolation, the end pieces continued."""
    k = torch.clamp(torch.bucketize(x, xs, right=True), 1, len(xs) - 1)
    frac = (x - xs[k - 1]) / (xs[k] - xs[k - 1])
    return ys[k - 1] * (1 - frac) + ys[k] * frac


def running(y, x):
    return torch.cat([torch.zeros(1), torch.cumulative_trapezoid(y, x)])


def tables(low, high, kind, h0, omega, z_top, size, rate):
    """Grid of the distance measure between its bounds with density, its logarithm and cumulative distribution."""
    if kind not in ("redshift", "comoving_distance", "luminosity_distance"):
        raise ValueError("kind")
    z = torch.linspace(0, z_top, size)
    hubble = h0 * torch.sqrt(1 - omega + omega * (1 + z) ** 3)
    comoving = running(C / hubble, z) / 1000
    if kind == "redshift":
        d = z
    elif kind == "comoving_distance":
        d = comoving
    else:
        d = (1 + z) * comoving
    ends = between(d, z, torch.tensor([low, high]))
    if ends[1] > z_top:
        raise ValueError("beyond the grid")
    use = (z >= ends[0]) & (z <= ends[1])
    step = z[1] - z[0]
    zs, ds = z[use], d[use]
    hubble = h0 * torch.sqrt(1 - omega + omega * (1 + zs) ** 3)
    p = comoving[use] ** 2 / hubble / torch.gradient(ds, spacing=step)[0]
    if rate is not None:
        p = p * rate(zs)
    pdf = p / torch.trapezoid(p, ds)
    return ds, pdf, running(pdf, ds)


def volume_sample(low, high, kind, h0, omega, z_top, size, rate, shape):
    d, pdf, cdf = tables(low, high, kind, h0, omega, z_top, size, rate)
    return between(cdf, d, torch.rand(shape))


def volume_score(low, high, kind, h0, omega, z_top, size, rate, x):
    d, pdf, cdf = tables(low, high, kind, h0, omega, z_top, size, rate)
    inside = (x >= low) & (x <= high)
    return torch.where(inside, between(d, torch.log(pdf), x), torch.full_like(x, -math.inf))


# -- parameters given as plain numbers ---------------------------------------------------------------

def from_numbers_sample(name, numbers):
    p = [torch.as_tensor(x) for x in numbers]
    if name == "Cosine":
        return cosine_sample(p[0], p[1], ())
    if name == "Sine":
        return sine_sample(p[0], p[1], ())
    if name == "LogUniform":
        return log_uniform_sample(p[0], p[1], ())
    if name == "LogNormal":
        return log_normal_sample(p[0], p[1], ())
    return delta_sample(p[0], ())


def from_numbers_score(name, numbers, x):
    p = [torch.as_tensor(y) for y in numbers]
    x = torch.as_tensor(x)
    if name == "Cosine":
        return cosine_score(p[0], p[1], x)
    if name == "Sine":
        return sine_score(p[0], p[1], x)
    return log_uniform_score(p[0], p[1], x)
