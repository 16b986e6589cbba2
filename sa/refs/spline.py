"""Reference definition of the natural B-spline smoothing of ml4gw."""
import torch


def knot_sequence(x, k):
    """k + 1 copies of either end, moving averages of k interior sites between."""
    first = x[0]
    last = x[-1]
    n = x.shape[0]
    averages = x[1:n - 1].unfold(0, k, 1).mean(-1)
    return torch.cat([first.repeat(k + 1), averages, last.repeat(k + 1)])


def ratio(num, den):
    """0/0 counts as nothing where knots coincide."""
    return torch.nan_to_num(num / den, 0.0, 0.0, 0.0)


def basis(x, k, t):
    """Cox-de Boor recursion, one column per basis function."""
    m = t.shape[0] - k - 1
    x = x[:, None]
    lo, hi = t[:m][None], t[1:m + 1][None]
    b = ((lo <= x) & (x < hi)).float()
    one = torch.ones_like(x)
    b0 = torch.where(x < t[1], one, b[:, :1])
    b1 = torch.where(x >= t[-2], one, b[:, -1:])
    b = torch.cat([b0, b[:, 1:-1], b1], 1)
    for d in range(1, k + 1):
        after = torch.cat([b[:, 1:], torch.zeros(x.shape[0], 1)], 1)
        up = ratio(x - t[:m], t[d:m + d] - t[:m])
        down = ratio(t[d + 1:m + d + 1] - x, t[d + 1:m + d + 1] - t[1:m + 1])
        b = up * b + down * after
    return b


def at_least(n, k, axis):
    if n < k + 2:
        raise ValueError("too few %s sites" % axis)


def inside(x, t, k):
    return torch.clamp(x.float(), t[k], t[-k - 1])


def batched(z):
    if z.ndim > 4:
        raise ValueError("too many axes")
    for _ in range(4 - z.ndim):
        z = z[None]
    return z


def normal(B, s):
    return B.T @ B + s * torch.eye(B.shape[1])


def spline_1d(x_in, k, s, z, x_out):
    if len(x_in) < k + 2:
        raise ValueError("too few points")
    x_in = x_in.float()
    t = knot_sequence(x_in, k)
    B = basis(x_in, k, t)
    if x_out is None:
        raise ValueError("no output sites")
    if z.ndim > 4:
        raise ValueError("too many axes")
    if z.shape[-1] != x_in.shape[0]:
        raise ValueError("wrong length")
    z = batched(z)
    rhs = torch.einsum("ni,bcrn->bcri", B, z)
    coef = torch.linalg.solve(normal(B, s), rhs[..., None])[..., 0]
    return torch.einsum("oi,bcri->bcro", basis(inside(x_out, t, k), k, t), coef)


def spline_2d(x_in, y_in, kx, ky, sx, sy, z, x_out, y_out):
    if len(x_in) < kx + 2 or len(y_in) < ky + 2:
        raise ValueError("too few points")
    x_in, y_in = x_in.float(), y_in.float()
    tx, ty = knot_sequence(x_in, kx), knot_sequence(y_in, ky)
    Bx, By = basis(x_in, kx, tx), basis(y_in, ky, ty)
    if x_out is None or y_out is None:
        raise ValueError("no output sites")
    if z.ndim > 4 or z.ndim < 2:
        raise ValueError("wrong number of axes")
    if z.shape[-1] != x_in.shape[0] or z.shape[-2] != y_in.shape[0]:
        raise ValueError("wrong shape")
    z = batched(z)
    rhs = torch.einsum("rj,bcrn,ni->bcji", By, z, Bx)
    half = torch.linalg.solve(normal(By, sy), rhs)
    coef = torch.linalg.solve(normal(Bx, sx), half.mT).mT
    return torch.einsum("pj,bcji,oi->bcpo", basis(inside(y_out, ty, ky), ky, ty), coef, basis(inside(x_out, tx, kx), kx, tx))
