"""Element semantics of the value-graph operations (see sem.py)."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import algebra as A
from . import field as F
from .algebra import Poly, topoly
from .sem import (SEM, ROUTE, Val, ZERO, ONE, vadd, vsub, vmul, vneg, vdiv, vinv, vpow, vconj, vabs, vfn, opaque, floordiv, cond_gt, summed,
                  cond_eq, vnot, vand, vite, vmax, vmin, vconst, lift, stable, FpKey)
from .values import Node


def sem(*names):
    def deco(f):
        for n in names:
            SEM[n] = f
        return f
    return deco


def route(*names):
    def deco(f):
        for n in names:
            ROUTE[n] = f

            def g(S, node, idx):
                r = S.route(node, idx)
                return None if r is None else S.val(*r)
            SEM[n] = g
        return f
    return deco


# -- leaves --------------------------------------------------------------------

@sem("num")
def _num(S, n, idx):
    return S.num(n.attr)


@sem("input")
def _input(S, n, idx):
    name = n.attr
    iv = [S.num(i).re for i in idx]
    k = ("in", name) + tuple(iv)
    re = F.hpos(*k) if name in S.pos else F.h(*k)
    im = F.h("im", *k) if n.dtype and n.dtype.startswith("c") else None
    return Val(re, im, False, frozenset([(name, idx)]), name in S.pos)


@sem("param", "init", "random", "rand", "randint", "randperm", "scipy", "h5data")
def _leaf(S, n, idx):
    if n.op in ("randint", "randperm"):
        p = S.draw(n, idx)
        if p is not None:
            v = S.num(p)
            return Val(v.re, v.im, v.taint, v.deps | frozenset([(n.op + ":" + repr(stable(n.attr)), idx)]), v.nn)
    vs = [S.lam(a) for a in n.args]
    iv = [S.num(i) for i in idx]
    v = opaque(n.op, stable(n.attr), vs + iv, cplx=bool(n.dtype and n.dtype.startswith("c")))
    return Val(v.re, v.im, v.taint, v.deps | frozenset([(n.op + ":" + repr(stable(n.attr)), idx)]))


@sem("window")
def _windowsem(S, n, idx):
    name, size, per = n.attr
    if size is None or not isinstance(per, bool):
        return opaque("window", stable(n.attr), [S.num(i) for i in idx])
    N = topoly(size) if per else topoly(size) - 1
    if name in ("hann_window", "hamming_window"):
        a = Fr(1, 2) if name == "hann_window" else Fr(27, 50)
        x = vdiv(vmul(S.num(Poly.atom(("s", "pi")) * 2), S.num(idx[0])), S.num(N))
        return vsub(vconst(a), vmul(vconst(1 - a), vfn("cos", x)))
    return opaque("window", name, [S.num(N), S.num(idx[0])])


@sem("const")
def _const(S, n, idx):
    a = n.attr
    if a == ("empty",):
        return ZERO
    return _constval(S, a, idx)


def _constval(S, a, idx):
    if not idx:
        return S.num(a) if isinstance(a, (Poly, int, Fr)) else opaque("const", stable(a), [])
    if not isinstance(a, tuple):
        return opaque("const", stable(a), [])
    return _pick(S, [lambda i=i: _constval(S, a[i], idx[1:]) for i in range(len(a))], idx[0])


def _pick(S, thunks, i):
    """Element i of a sequence of alternatives."""
    c = topoly(i).cval()
    if c is not None and 0 <= c < len(thunks):
        return thunks[int(c)]()
    r = None
    if len(thunks) > 16:
        vs = [t() for t in thunks]
        return opaque("pick", None, vs + [S.num(i)])
    for k, t in enumerate(thunks):
        v = t()
        r = v if r is None else vite(S.ceq(topoly(i) - k), v, r)
    return r if r is not None else ZERO


@sem("eye")
def _eye(S, n, idx):
    return S.ceq(idx[0] - idx[1])


@sem("arange")
def _arange(S, n, idx):
    if isinstance(n.attr, tuple) and len(n.attr) == 3 and n.attr[0] is not None and n.attr[1] is not None:
        return S.num(topoly(n.attr[0]) + topoly(n.attr[1]) * idx[0])
    if len(n.args) == 3:
        return vadd(S.lam(n.args[0]), vmul(S.lam(n.args[2]), S.num(idx[0])))
    return None


@sem("linspace")
def _linspace(S, n, idx):
    a, b = S.lam(n.args[0]), S.lam(n.args[1])
    N = S.num(n.shape[0].p)
    return vadd(a, vmul(vsub(b, a), vdiv(S.num(idx[0]), vsub(N, ONE))))


@sem("logspace")
def _logspace(S, n, idx):
    v = _linspace(S, n, idx)
    return vfn("exp", vmul(v, vfn("log", vconst(10))))


@sem("fill")
def _fill(S, n, idx):
    a = n.args[0]
    if a.op == "num":
        return S.num(a.attr)
    if a.op == "cond":
        return S.lam(a)
    m = 0 if a.shape is None else len(a.shape)
    return S.val(a, tuple(idx[len(idx) - m:]) if m else ())


@sem("cond")
def _cond(S, n, idx):
    k, p, neg = n.attr
    if p is None or k == "opaque":
        return None
    u = S.cge(p) if k == "ge" else S.ceq(p) if k == "eq" else vnot(S.cge(-topoly(p)))
    return vnot(u) if neg else u


# -- elementwise -----------------------------------------------------------------

def _bin(f):
    def g(S, n, idx):
        return f(S.arg(n, 0, idx), S.arg(n, 1, idx))
    return g


for _name, _f in dict(add=vadd, sub=vsub, mul=vmul, div=vdiv, maximum=vmax, minimum=vmin, fmax=vmax, fmin=vmin,
                      gt=cond_gt, lt=lambda a, b: cond_gt(b, a), gte=lambda a, b: vnot(cond_gt(b, a)),
                      lte=lambda a, b: vnot(cond_gt(a, b)), eq=cond_eq, noteq=lambda a, b: vnot(cond_eq(a, b)),
                      ge=lambda a, b: vnot(cond_gt(b, a)), le=lambda a, b: vnot(cond_gt(a, b)),
                      ne=lambda a, b: vnot(cond_eq(a, b))).items():
    SEM[_name] = _bin(_f)


ORDERED = {"arange", "add", "sub", "mul", "index", "reshape", "expand", "unsqueeze", "squeeze"}


def _order(name):
    """Comparison of positions (elements of index ranges) is decided, or cut, by position."""
    value = SEM[name]
    flip, strict = name in ("lt", "lte", "le"), name in ("gt", "lt")

    def g(S, n, idx):
        ps = []
        for a in n.args:
            m = 0 if a.shape is None else len(a.shape)
            if a.op == "num":
                p = a.attr if A.is_int(a.attr) else None
            elif m and a.op in ORDERED:
                p = S.ipoly(a, tuple(Poly.const(0) if S.one(d) else i for i, d in zip(idx[len(idx) - m:], a.shape)))
            else:
                p = None
            if p is None or not A.is_int(topoly(p)) or any(x[:2] == ("intfn", "fpv") for x in topoly(p).atoms()):
                return value(S, n, idx)
            ps.append(topoly(p))
        p, q = ps[::-1] if flip else ps
        if name in ("eq", "ne"):
            return S.ceq(p - q) if name == "eq" else vnot(S.ceq(p - q))
        return vnot(S.cge(q - p)) if strict else S.cge(p - q)
    SEM[name] = g


for _name in ("gt", "lt", "gte", "lte", "ge", "le", "eq", "ne"):
    _order(_name)


@sem("pow")
def _pow(S, n, idx):
    b, e = n.args
    if e.op == "num" and e.attr.cval() is not None and e.attr.cval().denominator < 5000:
        return vpow(S.arg(n, 0, idx), e.attr.cval())
    x, y = S.arg(n, 0, idx), S.arg(n, 1, idx)
    if x.im is None and y.im is None:
        return vfn("exp", vmul(y, vfn("log", x)))
    return None


@sem("floordiv")
def _floordiv(S, n, idx):
    p = S.ipoly(n, idx)
    return floordiv(S.arg(n, 0, idx), S.arg(n, 1, idx))


@sem("mod", "remainder")
def _mod(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    return vsub(a, vmul(b, floordiv(a, b)))


@sem("floor")
def _floor(S, n, idx):
    return floordiv(S.arg(n, 0, idx), ONE)


@sem("ceil")
def _ceil(S, n, idx):
    return vneg(floordiv(vneg(S.arg(n, 0, idx)), ONE))


@sem("trunc")
def _trunc(S, n, idx):
    return vfn("trunc", S.arg(n, 0, idx))


@sem("and")
def _and(S, n, idx):
    return vand(S.arg(n, 0, idx), S.arg(n, 1, idx))


@sem("or")
def _or(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    return vsub(vadd(a, b), vand(a, b))


@sem("xor")
def _xor(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    return vsub(vadd(a, b), vmul(vconst(2), vand(a, b)))


@sem("not")
def _not(S, n, idx):
    return vnot(S.arg(n, 0, idx))


@sem("neg")
def _neg(S, n, idx):
    return vneg(S.arg(n, 0, idx))


@sem("where")
def _where(S, n, idx):
    return vite(S.arg(n, 0, idx), S.arg(n, 1, idx), S.arg(n, 2, idx))


@sem("abs")
def _abs(S, n, idx):
    return vabs(S.arg(n, 0, idx))


def _fn1(name):
    def g(S, n, idx):
        return vfn(name, S.arg(n, 0, idx))
    return g


for _name in ("sin", "cos", "tan", "exp", "log", "asin", "acos", "atan", "sinh", "cosh", "tanh", "erf", "sign", "sigmoid",
              "asinh", "acosh", "atanh", "round", "isnan", "isfinite", "isinf", "erfinv", "lgamma"):
    SEM[_name] = _fn1(_name)


@sem("sqrt")
def _sqrt(S, n, idx):
    a = S.arg(n, 0, idx)
    return vpow(a, Fr(1, 2)) if a.im is None else None


@sem("log2")
def _log2(S, n, idx):
    return vdiv(vfn("log", S.arg(n, 0, idx)), vfn("log", vconst(2)))


@sem("log10")
def _log10(S, n, idx):
    return vdiv(vfn("log", S.arg(n, 0, idx)), vfn("log", vconst(10)))


@sem("log1p")
def _log1p(S, n, idx):
    return vfn("log", vadd(ONE, S.arg(n, 0, idx)))


@sem("expm1")
def _expm1(S, n, idx):
    return vsub(vfn("exp", S.arg(n, 0, idx)), ONE)


@sem("rsqrt")
def _rsqrt(S, n, idx):
    return vpow(S.arg(n, 0, idx), Fr(-1, 2))


@sem("reciprocal")
def _recip(S, n, idx):
    return vinv(S.arg(n, 0, idx))


@sem("square")
def _square(S, n, idx):
    a = S.arg(n, 0, idx)
    return vmul(a, a)


@sem("atan2")
def _atan2(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    t, d = lift(a, b)
    out = []
    for x, y in zip(a.re, b.re):
        # atan2(kx, ky) = atan2(x, y) for k > 0 is not imposed; oddness in the first argument is
        m = (F.P - x) % F.P
        out.append(0 if x == 0 else F.h1("atan2", x, y) if x <= m else (F.P - F.h1("atan2", m, y)) % F.P)
    return Val(tuple(out), None, t, d)


@sem("clamp")
def _clamp(S, n, idx):
    a = S.arg(n, 0, idx)
    names = n.attr or ()
    for k, w in enumerate(names):
        if w not in ("min", "max"):
            return None
        b = S.arg(n, k + 1, idx)
        a = vmax(a, b) if w == "min" else vmin(a, b)
    return a


@sem("param")
def _param(S, n, idx):
    return S.arg(n, 0, idx) if n.args else None


@sem("init")
def _init(S, n, idx):
    how = str(n.attr).split("#")[0]
    if how == "constant_" and n.args:
        return S.arg(n, 0, idx)
    return {"zeros_": ZERO, "ones_": ONE}.get(how)


@sem("relu")
def _relu(S, n, idx):
    return vmax(S.arg(n, 0, idx), ZERO)


@sem("gelu")
def _gelu(S, n, idx):
    return opaque("act", stable(("GELU", "none")), [S.arg(n, 0, idx)])


@sem("silu")
def _silu(S, n, idx):
    v = S.arg(n, 0, idx)
    return vmul(v, vfn("sigmoid", v))


@sem("act")
def _act(S, n, idx):
    a = S.arg(n, 0, idx)
    if n.attr == "ReLU":
        return vmax(a, ZERO)
    return opaque("act", stable(n.attr), [a])


@sem("cast")
def _cast(S, n, idx):
    a = n.args[0]
    v = S.arg(n, 0, idx)
    d = n.attr
    if d is None:
        return v
    if d.startswith("i") and a.dtype is not None and a.dtype.startswith(("f", "b")) and not a.dtype.startswith("bool"):
        return vfn("trunc", v)
    if d == "bool" and a.dtype != "bool":
        return vnot(cond_eq(v, ZERO))
    if d.startswith("c") and v.im is None:
        return Val(v.re, F.ZERO, v.taint, v.deps)
    if not d.startswith("c") and v.im is not None:
        return Val(v.re, None, v.taint, v.deps)
    return v


@sem("copy_", "todev", "detach", "clone", "contiguous", "expandto", "scalar")
def _same(S, n, idx):
    return S.arg(n, 0, idx)


@sem("dropout")
def _dropout(S, n, idx):
    return opaque("dropout", stable(n.attr), [S.arg(n, 0, idx)] + [S.num(i) for i in idx])


@sem("act")
def _act(S, n, idx):
    name = n.attr[0] if isinstance(n.attr, tuple) else n.attr
    if name == "Softmax":
        return None
    v = S.arg(n, 0, idx)
    if name == "ReLU":
        return vmax(v, ZERO)
    if name in ("Tanh", "Sigmoid"):
        return vfn(name.lower(), v)
    if name == "SiLU":
        return vmul(v, vfn("sigmoid", v))
    return opaque("act", stable(n.attr), [v])


@sem("glu")
def _glu(S, n, idx):
    k = len(n.shape) + n.attr
    a = S.val(n.args[0], idx)
    b = S.val(n.args[0], idx[:k] + (idx[k] + n.shape[k].p,) + idx[k + 1:])
    return vmul(a, vfn("sigmoid", b))


@sem("nan_to_num")
def _n2n(S, n, idx):
    vs = [S.arg(n, k, idx) for k in range(len(n.args))]
    if stable(n.attr) == "None" and len(vs) == 1:
        return vs[0]          # only differs at non-finite values
    return opaque("nan_to_num", stable(n.attr), vs)


# -- complex ---------------------------------------------------------------------

@sem("complex")
def _complex(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    t, d = lift(a, b)
    return Val(a.re, b.re, t, d)


@sem("polar")
def _polar(S, n, idx):
    a, b = S.arg(n, 0, idx), S.arg(n, 1, idx)
    t, d = lift(a, b)
    return Val(F.mul(a.re, F.fn("cos", b.re)), F.mul(a.re, F.fn("sin", b.re)), t, d)


@sem("real")
def _real(S, n, idx):
    v = S.arg(n, 0, idx)
    return Val(v.re, None, v.taint, v.deps, v.nn)


@sem("imag")
def _imag(S, n, idx):
    v = S.arg(n, 0, idx)
    return Val(v.im or F.ZERO, None, v.taint, v.deps)


@sem("conj", "resolve_conj")
def _conj(S, n, idx):
    return vconj(S.arg(n, 0, idx))


@sem("angle")
def _angle(S, n, idx):
    v = S.arg(n, 0, idx)
    return opaque("angle", None, [v])


@sem("view_as_real")
def _var(S, n, idx):
    v = S.val(n.args[0], idx[:-1])
    return _pick(S, [lambda: Val(v.re, None, v.taint, v.deps), lambda: Val(v.im or F.ZERO, None, v.taint, v.deps)], idx[-1])


@sem("view_as_complex")
def _vac(S, n, idx):
    a, b = S.val(n.args[0], idx + (Poly.const(0),)), S.val(n.args[0], idx + (Poly.const(1),))
    t, d = lift(a, b)
    return Val(a.re, b.re, t, d)


# -- re-indexing -------------------------------------------------------------------

@route("index")
def _index(S, n, idx):
    src = n.args[0].shape
    if n.attr == ("?",):
        return None
    out, k, j = [], 0, 0
    for kk in n.attr:
        if kk[0] == "none":
            j += 1
            continue
        if kk[0] == "all":
            out.append(idx[j])
            j += 1
        elif kk[0] == "slice":
            if kk[1] == "?":
                return None
            out.append(topoly(kk[1]) + topoly(kk[3]) * idx[j])
            j += 1
        elif kk[0] == "int":
            p = topoly(kk[1])
            if p.cval() is not None and p.cval() < 0 or p.cval() is None and S.ge0(-p - 1):
                p = src[k].p + p
            out.append(p)
        else:
            return None
        k += 1
    return out


@route("permute")
def _permute(S, n, idx):
    if n.attr == ("?",):
        return None
    perm = n.attr
    out = [None] * len(n.shape)
    for k, p in enumerate(perm):
        # output axis (k - len(perm)) is source axis p (both counted from the end)
        out[p] = idx[len(idx) - len(perm) + k]
    for k in range(len(n.shape)):
        if out[k] is None:
            out[k] = idx[k]
    return out


@route("expand")
def _expand(S, n, idx):
    src = n.args[0].shape
    return [Poly.const(0) if S.one(d) else i for i, d in zip(idx[len(idx) - len(src):], src)]


def split_flat(S, terms, dims):
    """terms: [(index, size)] most significant first, describing a flat index; -> index per target dim."""
    return None


def exact_term(g, b):
    """The single-term polynomial t with t*b == g, if there is one."""
    if len(g.t) != len(b.t):
        return None
    mb, cb = next(iter(b.t.items()))
    inv = Poly({mb: cb}) ** -1
    for m, c in g.t.items():
        t = Poly({m: c}) * inv
        if t * b == g:
            return t
    return None


def divmod_(S, flat, b):
    """(flat // b, flat % b) using the recorded bounds of the index atoms."""
    if topoly(b).cval() == 1:
        return flat, Poly.const(0)
    q = Poly.const(0)
    # pull out multiples of b
    try:
        quo = flat / b
        q = Poly({m: c for m, c in quo.t.items() if A.is_int(Poly({m: c}))})
    except A.Blowup:
        pass
    r = flat - q * b
    # a*(coefficient divisible by b), coefficient being a sum
    if len(topoly(b).t) > 1:
        groups = {}
        for m, c in r.t.items():
            for at, ex in m:
                if ex == 1:
                    rest = tuple(y for y in m if y[0] != at)
                    groups.setdefault(at, {})[rest] = c
        for at, g in groups.items():
            quo = exact_term(Poly(g), topoly(b))
            if quo is not None and A.is_int(quo):
                t = quo * Poly.atom(at)
                if A.is_int(t):
                    q, r = q + t, r - t * b
                    break
    for _ in range(3):
        if r.is_zero() or (S.ge0(r) and S.ge0(b - 1 - r)):
            return q, r
        if S.ge0(-r - 1) and S.ge0(r + b):
            return q - 1, r + b
        break
    d = A.idiv(flat, b)
    return d, flat - d * b


@route("reshape")
def _reshape(S, n, idx):
    src, dst = n.args[0].shape, n.shape
    if n.attr == ("?",) or n.attr is None:
        return None
    s = [S.norm(d.p) for d in src]
    t = [S.norm(d.p) for d in dst]
    one = Poly.const(1)
    out = []
    i = j = 0
    # match groups from the left with equal products
    while i < len(s) or j < len(t):
        if i < len(s) and s[i] == one:
            out.append(Poly.const(0))
            i += 1
            continue
        if j < len(t) and t[j] == one:
            j += 1
            continue
        if i < len(s) and j < len(t) and S.I.same(s[i] - t[j]) is True:
            out.append(idx[j])
            i += 1
            j += 1
            continue
        # grow a group
        a, b = i, j
        ps = pt = one
        ok = False
        cands = []
        acc = one
        for x in range(i, len(s)):
            acc = acc * s[x]
            cands.append((x + 1, acc))
        acc = one
        found = None
        for y in range(j, len(t)):
            acc = acc * t[y]
            for x, pp in cands:
                if S.I.same(pp - acc) is True:
                    found = (x, y + 1)
                    break
            if found:
                break
        if not found:
            found = (len(s), len(t))
        flat = Poly.const(0)
        for y in range(j, found[1]):
            flat = flat * t[y] + idx[y]
        rest = flat
        parts = []
        for x in range(found[0] - 1, i, -1):
            rest, r = divmod_(S, rest, s[x])
            parts.append(r)
        if i < found[0]:
            parts.append(rest)
        out.extend(reversed(parts))
        i, j = found
    return out


@route("repeat")
def _repeat(S, n, idx):
    if n.attr is None:
        return None
    src = n.args[0].shape
    out = []
    for i, d in zip(idx[len(idx) - len(src):], src):
        if S.one(d):
            out.append(Poly.const(0))
        elif S.ge0(i) and S.ge0(d.p - 1 - i):
            out.append(i)
        else:
            out.append(divmod_(S, i, d.p)[1])
    return out


@route("repeat_interleave")
def _ri(S, n, idx):
    if n.attr is None or not isinstance(n.attr, tuple) or n.attr[1] is None:
        return None
    k, r = n.attr
    out = list(idx)
    out[len(out) + k if k < 0 else k] = divmod_(S, idx[k], topoly(r))[0]
    return out


@route("flip")
def _flip(S, n, idx):
    dims = n.attr[0] if isinstance(n.attr, tuple) and isinstance(n.attr[0], tuple) else n.attr
    out = list(idx)
    for d in dims:
        out[d] = n.shape[d].p - 1 - idx[d]
    return out


@route("unfold")
def _unfold(S, n, idx):
    if n.attr == ("?",):
        return None
    k, size, step = n.attr
    out = list(idx[:-1])
    pos = len(out) + k
    out[pos] = topoly(step) * out[pos] + idx[-1]
    return out


@route("im2col", "Unfold")
def _im2col(S, n, idx):
    """Sliding blocks: column (c, k) of location l is x[c, 0, l*stride + k*dilation] (single-row input, no padding)."""
    if n.attr is None:
        return None
    ks, ds, ps, ss = n.attr
    src = n.args[0].shape
    if len(ks) != 2 or len(src) not in (3, 4) or src[-2].p.cval() != 1 or topoly(ks[0]).cval() != 1:
        return None
    if any(topoly(x).cval() != 0 for x in ps):
        return None
    kw = topoly(ks[1])
    c, k = divmod_(S, idx[-2], kw) if src[-3].p.cval() != 1 else (Poly.const(0), idx[-2])
    return list(idx[:-2]) + [c, Poly.const(0), topoly(ss[1]) * idx[-1] + topoly(ds[1]) * k]


@route("diagonal")
def _diag(S, n, idx):
    if n.attr is None or n.attr[0] != "0" or len(n.attr) != 3:
        return None
    m = len(n.args[0].shape)
    a, b = sorted((n.attr[1] + m, n.attr[2] + m))
    out = list(idx[:-1])
    out.insert(a, idx[-1])
    out.insert(b, idx[-1])
    return out


@sem("index_select")
def _isel(S, n, idx):
    k = n.attr
    if k is None:
        return None
    k %= len(idx)
    return S.read_at(n.args[1], (idx[k],), lambda p: S.val(n.args[0], idx[:k] + (p,) + idx[k + 1:]))


@sem("gather_dim")
def _gdim(S, n, idx):
    k = n.attr
    if k is None:
        return None
    k %= len(idx)
    return S.read_at(n.args[1], idx, lambda p: S.val(n.args[0], idx[:k] + (p,) + idx[k + 1:]))


@sem("take")
def _take(S, n, idx):
    src = n.args[0]
    if src.shape is None or len(src.shape) != 1:
        return None
    return S.read_at(n.args[1], idx, lambda p: S.val(src, (p,)))


def adv_source(S, n, idx, ival=None):
    """Source index of an advanced-indexing element (integer index tensors)."""
    src = n.args[0].shape
    ixs = [a for a in n.args[1:]]
    if any(a.dtype == "bool" or a.shape is None for a in ixs) or src is None:
        return None
    nb = max(len(a.shape) for a in ixs)
    adv = [k for k, kk in enumerate(n.attr) if kk[0] in ("adv", "int")]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    pos = 0
    if contiguous:
        pos = sum(1 for kk in n.attr[:adv[0]] if kk[0] != "int")
    bidx = idx[pos:pos + nb]
    rest = list(idx[:pos]) + list(idx[pos + nb:])
    out, q, r = [], 0, 0
    for kk in n.attr:
        if kk[0] == "none":
            r += 1
        elif kk[0] == "all":
            out.append(rest[r])
            r += 1
        elif kk[0] == "slice":
            if kk[1] == "?":
                return None
            out.append(topoly(kk[1]) + topoly(kk[3]) * rest[r])
            r += 1
        elif kk[0] == "int":
            p = topoly(kk[1])
            if p.cval() is not None and p.cval() < 0:
                p = src[len(out)].p + p
            out.append(p)
        else:
            a = ixs[q]
            q += 1
            m = len(a.shape)
            ii = tuple(Poly.const(0) if S.one(d) else i for i, d in zip(bidx[len(bidx) - m:], a.shape))
            out.append((ival or S.ival)(a, ii))
    return tuple(out)


def selected(S, n, idx):
    """Source index of an element selected by one mask."""
    masks = [a for a in n.args[1:] if a.dtype == "bool"]
    if len(n.args) != 2 or not masks or masks[0].shape is None or n.args[0].shape is None or not spans(S, n.args[0], n.attr, masks):
        return None
    k = next(i for i, kk in enumerate(n.attr) if kk[0] == "adv")
    ps = S.nonzero(masks[0], idx[k])
    return None if ps is None else tuple(idx[:k]) + ps + tuple(idx[k + 1:])


@sem("gather")
def _gather(S, n, idx):
    pieces = []
    j = selected(S, n, idx)
    if j is not None:
        return S.val(n.args[0], j)

    def note(a, ii):
        if S.ipoly(a, ii) is None and S.val(a, ii).pw:
            pieces.append((a, ii))
            return Poly.const(0)
        return S.ival(a, ii)
    j = adv_source(S, n, idx, note)
    if j is None:
        return None
    if not pieces:
        return S.val(n.args[0], j)
    if len(pieces) > 1:
        return S.val(n.args[0], adv_source(S, n, idx))
    w = pieces[0][0]
    return S.read_at(w, pieces[0][1], lambda p: S.val(n.args[0], adv_source(
        S, n, idx, lambda a, ii: p if a is w else S.ival(a, ii))))


# -- joining -------------------------------------------------------------------------

@sem("stack")
def _stack(S, n, idx):
    d = n.attr
    if isinstance(d, tuple) and d[0] == "abs":
        k = len(idx) + d[1]
        return S.bound(d[3], idx[k]).val(n.args[0], idx[:k] + idx[k + 1:])
    if not isinstance(d, int):
        return None
    k = len(idx) + d if d < 0 else d
    rest = idx[:k] + idx[k + 1:]
    return _pick(S, [lambda a=a: S.val(a, rest) for a in n.args], idx[k])


@sem("cat")
def _cat(S, n, idx):
    d = n.attr
    if isinstance(d, tuple) and d[0] == "abs":
        k = len(idx) + d[1]
        w = n.args[0].shape[k].p
        q = A.idiv(idx[k], w)
        return S.bound(d[3], q).val(n.args[0], idx[:k] + (idx[k] - q * w,) + idx[k + 1:])
    if not isinstance(d, int):
        return None
    k = len(idx) + d if d < 0 else d
    i = idx[k]
    off = Poly.const(0)
    parts = []
    for a in n.args:
        if a.shape is None:
            return None
        parts.append((off, a))
        off = off + a.shape[k].p
    # last part whose start is certainly <= i and whose end is certainly > i
    for j, (o, a) in enumerate(parts):
        if S.ge0(i - o) is True and S.ge0(o + a.shape[k].p - 1 - i) is True:
            return S.val(a, idx[:k] + (i - o,) + idx[k + 1:])
    r = None
    for o, a in parts:
        if a.shape[k].p.is_zero():
            continue
        g = S.ge0(i - o)
        if r is not None and g is False:
            continue
        e = S.ge0(o + a.shape[k].p - 1 - i)
        if e is False:
            continue
        v = S.val(a, idx[:k] + (i - o,) + idx[k + 1:])
        r = v if r is None else vite(S.cge(i - o), v, r)
    return r


@sem("pad")
def _pad(S, n, idx):
    if n.attr is None:
        return None
    ps, mode, vp = n.attr
    if mode != "constant":
        return None
    out = list(idx)
    u = ONE
    for q in range(len(ps) // 2):
        k = len(idx) - 1 - q
        lo = topoly(ps[2 * q])
        i = idx[k] - lo
        N = n.args[0].shape[k].p
        u = vand(u, vand(S.cge(i), vnot(S.cge(i - N))))
        out[k] = i
    if vp is None:
        vp = Poly.const(0)
    fillv = S.num(vp) if isinstance(vp, (Poly, int, Fr)) else S.val(vp, ()) if isinstance(vp, Node) else ZERO
    if u.key() == ZERO.key():
        return fillv
    return vite(u, S.val(n.args[0], tuple(out)), fillv)


# -- partial writes ------------------------------------------------------------------

def back(S, chain, idx, base):
    """Follow base index idx through a view chain: (condition value, view index) or None."""
    u = ONE
    kind = "all"
    cur = tuple(idx)
    shape = base
    for op, attr, vshape in chain:
        if vshape is None or attr == ("?",):
            return None
        if op == "index":
            out, k = [], 0
            for kk in attr:
                if kk[0] == "none":
                    out.append(Poly.const(0))
                    continue
                i = cur[k]
                if kk[0] == "all":
                    out.append(i)
                elif kk[0] == "int":
                    p = topoly(kk[1])
                    if p.cval() is not None and p.cval() < 0 or p.cval() is None and S.ge0(-p - 1):
                        p = shape[k].p + p
                    u = vand(u, S.ceq(i - p))
                elif kk[0] == "slice":
                    if kk[1] == "?":
                        return None
                    a, b, st = topoly(kk[1]), topoly(kk[2]), topoly(kk[3])
                    u = vand(u, vand(S.cge(i - a), vnot(S.cge(i - b))))
                    if st.cval() == 1:
                        out.append(i - a)
                    else:
                        q, r = divmod_(S, i - a, st)
                        u = vand(u, S.ceq(r))
                        out.append(q)
                else:
                    return None
                k += 1
            cur = tuple(out)
        elif op == "permute":
            m = len(attr)
            cur = cur[:len(cur) - m] + tuple(cur[p] for p in attr)
        elif op == "real":
            kind = "real"
        elif op == "imag":
            kind = "imag"
        elif op in ("detach",):
            pass
        elif op == "reshape":
            # inverse of a reshape is a reshape
            flat_n = Node("reshape", (_Dummy(vshape),), (), shape, None, None, None)
            j = _reshape(S, flat_n, cur)
            if j is None:
                return None
            cur = tuple(j)
        elif op == "expand":
            return None
        else:
            return None
        shape = vshape
        if u.key() == ZERO.key():
            return ("all", u, cur)
    return (kind, u, cur)


class _Dummy:
    def __init__(self, shape):
        self.shape = shape


@sem("update")
def _update(S, n, idx):
    if n.attr == ("?",) or n.attr is None:
        return None
    r = back(S, n.attr, idx, n.shape)
    if r is None:
        return None
    kind, u, j = r
    old = S.val(n.args[0], idx) if u.key() != ONE.key() or kind != "all" else ZERO
    if u.key() == ZERO.key():
        return old
    new = S.val(n.args[1], fit(S, n.args[1], j))
    if kind == "real":
        new = Val(new.re, old.im, new.taint or old.taint, new.deps | old.deps)
    elif kind == "imag":
        new = Val(old.re, new.re, new.taint or old.taint, new.deps | old.deps)
    return vite(u, new, old)


def fit(S, n, j):
    if n.shape is None:
        return None
    m = len(n.shape)
    return tuple(Poly.const(0) if S.one(d) else i for i, d in zip(j[len(j) - m:], n.shape))


def spans(S, t, key, masks):
    """Do the slices of an index key cover the axes they are applied to?"""
    k = 0
    masks = list(masks)
    for kk in key:
        if kk[0] == "adv":
            a = masks.pop(0)
            k += len(a.shape) if a.dtype == "bool" else 1
            continue
        if kk[0] == "slice":
            if kk[1] == "?" or kk[3] != 1 or not topoly(kk[1]).is_zero():
                return False
            if not (S.norm(topoly(kk[2])) - S.norm(t.shape[k].p)).is_zero():
                return False
        elif kk[0] != "all":
            return False
        k += 1
    return True


@sem("index_put")
def _iput(S, n, idx):
    t, v = n.args[0], n.args[1]
    ixs = list(n.args[2:])
    if t.shape is None:
        return None
    old = S.val(t, idx)
    if len(ixs) == 1 and ixs[0].dtype == "bool" and ixs[0].shape is not None and spans(S, t, n.attr, ixs):
        # boolean mask over consecutive axes
        k = next(i for i, kk in enumerate(n.attr) if kk[0] == "adv")
        m = len(ixs[0].shape)
        u = S.val(ixs[0], tuple(Poly.const(0) if S.one(d) else i for i, d in zip(idx[k:k + m], ixs[0].shape)))
        if v.op == "num" or v.shape == ():
            return vite(u, S.val(v, ()), old)
        w = S.rank(ixs[0], idx[k:k + m])
        if w is not None and v.shape is not None:
            return vite(u, S.val(v, fit(S, v, tuple(idx[:k]) + (w,) + tuple(idx[k + m:]))), old)
        return vite(u, opaque("masked", None, [S.lam(v)] + [S.num(i) for i in idx]), old)
    vs = [old, S.lam(v)] + [S.lam(a) for a in ixs] + [S.num(i) for i in idx]
    return opaque("index_put", stable(n.attr), vs, cplx=bool(n.dtype and n.dtype.startswith("c")))


@sem("held")
def _held(S, n, idx):
    return n.attr


@sem("scatter", "scatter_add")
def _scatter(S, n, idx):
    """Scattering along one axis at positions that move with the source position one by one."""
    k = n.attr
    t, ix, v = n.args
    if not isinstance(k, int) or ix.shape is None or t.shape is None or len(ix.shape) != len(idx):
        return None
    k %= len(idx)
    for q, (d, e) in enumerate(zip(ix.shape, t.shape)):
        if q != k and not (S.norm(d.p) - S.norm(e.p)).is_zero():
            return None
    j = S.atom("scat:" + A.show(S.norm(ix.shape[k].p)), ix.shape[k].p)
    at = lambda p: tuple(idx[:k]) + (p,) + tuple(idx[k + 1:])
    p = S.ipoly(ix, at(j))
    if p is None:
        return None
    name = next(iter(j.atoms()), None)
    put = lambda c: p.subst(lambda a: Poly.const(c) if a == name else None)
    first, step = put(0), (put(1) - put(0)).cval() if name else 1
    if step not in (1, -1) or not S.norm(p - first - j * step).is_zero():
        return None
    j = (idx[k] - first) * step
    u = vand(S.cge(j), S.cge(ix.shape[k].p - 1 - j))
    new = S.val(v, ()) if v.op == "num" or v.shape == () else S.val(v, at(j)) if v.shape is not None else None
    if new is None:
        return None
    old = S.val(t, idx)
    return vite(u, new, old) if n.op == "scatter" else vadd(old, vite(u, new, ZERO))


# -- reductions ------------------------------------------------------------------------

def red_axes(n):
    dims = n.attr[0] if n.attr else None
    keep = n.attr[1] if n.attr and len(n.attr) > 1 else False
    src = n.args[0].shape
    if src is None:
        return None
    if dims is None:
        dims = tuple(range(-len(src), 0))
    if isinstance(dims, int):
        dims = (dims,)
    if not all(isinstance(d, int) for d in dims):
        return None
    dims = sorted(d + len(src) if d >= 0 - len(src) and d < 0 else d for d in dims)
    return dims, bool(keep), src


def src_index(idx, dims, keep, src, vals):
    if keep:
        out = list(idx)
        for d in dims:
            out[d] = vals[d]
        return tuple(out)
    out, j = [], 0
    for k in range(len(src)):
        if k in vals:
            out.append(vals[k])
        else:
            out.append(idx[j])
            j += 1
    return tuple(out)


def total(S, n, idx, f=lambda v: v):
    ra = red_axes(n)
    if ra is None:
        return None
    dims, keep, src = ra

    def rec(k, vals):
        if k == len(dims):
            return f(S.val(n.args[0], src_index(idx, dims, keep, src, vals)))
        r = ZERO
        for t, w in S.points(src[dims[k]]):
            r = vadd(r, vmul(w, rec(k + 1, dict(vals, **{}) | {dims[k]: t})))
        return r
    return summed(rec(0, {}))


def count(S, n):
    dims, keep, src = red_axes(n)
    c = ONE
    for d in dims:
        c = vmul(c, S.num(src[d].p))
    return c


@sem("sum", "nansum")
def _sum(S, n, idx):
    return total(S, n, idx)


@sem("mean", "nanmean")
def _mean(S, n, idx):
    t = total(S, n, idx)
    return None if t is None else vdiv(t, count(S, n))


@sem("var", "std")
def _var_(S, n, idx):
    m = _mean(S, n, idx)
    if m is None:
        return None
    at = n.attr[2] if len(n.attr) > 2 else None
    corr = ONE
    if isinstance(at, tuple):
        un, co = at[0], at[1]
        if un in ("False", False) or co in ("0", 0):
            corr = ZERO
        elif co not in ("None", None, "1", 1) or un not in ("None", None, "True", True):
            return None
    elif at is not None:
        return None
    ss = total(S, n, idx, lambda v: vmul(vsub(v, m), vsub(v, m)))
    r = vdiv(ss, vsub(count(S, n), corr))
    return r if n.op == "var" else vpow(r, Fr(1, 2))


@sem("prod")
def _prod(S, n, idx):
    ra = red_axes(n)
    if ra is None:
        return None
    dims, keep, src = ra
    if len(dims) != 1 or src[dims[0]].p.cval() is None or src[dims[0]].p.cval() > 16:
        return None
    r = ONE
    for t, w in S.points(src[dims[0]]):
        r = vmul(r, S.val(n.args[0], src_index(idx, dims, keep, src, {dims[0]: t})))
    return r


def bound_points(S, d):
    return [t for t, w in S.points(d)]


def _opaque_red(S, n, idx):
    ra = red_axes(n)
    if ra is None:
        return None
    dims, keep, src = ra
    vs = []

    def rec(k, vals):
        if k == len(dims):
            vs.append(S.val(n.args[0], src_index(idx, dims, keep, src, vals)))
            return
        for t in bound_points(S, src[dims[k]]):
            rec(k + 1, vals | {dims[k]: t})
    rec(0, {})
    extra = [S.lam(a) for a in n.args[1:]]
    at = tuple(stable(x) for x in n.attr[2:])
    if n.op in ("any", "all") and n.args[0].dtype == "bool" and not extra:
        # all(x) is not any(not x); an entry that is decided decides the reduction or drops out
        neg = n.op == "all"
        vs = [vnot(v) if neg else v for v in vs]
        if any(v.key() == ONE.key() for v in vs):
            r = ONE
        else:
            vs = [v for v in vs if v.key() != ZERO.key()]
            r = opaque("red:any", len(dims), vs + [S.num(src[d].p) for d in dims]) if vs else ZERO
        return vnot(r) if neg else r
    return opaque("red:" + {"amax": "max", "amin": "min"}.get(n.op, n.op), (at, len(dims)), vs + extra + [S.num(src[d].p) for d in dims])


for _n in ("max", "min", "amax", "amin", "argmax", "argmin", "median", "quantile", "nanquantile", "nanmedian", "any", "all",
           "logsumexp", "norm", "mode"):
    SEM[_n] = _opaque_red


@sem("cummin", "cummax", "argcummin", "argcummax", "sort", "argsort", "cumprod", "sort_vals")
def _scan(S, n, idx):
    ra = red_axes(n)
    if ra is None:
        return None
    dims, keep, src = ra
    d = dims[0]
    vs = [S.val(n.args[0], idx[:d] + (t,) + idx[d + 1:]) for t in bound_points(S, src[d])]
    return opaque("scan:" + n.op, tuple(stable(x) for x in n.attr[2:]), vs + [S.num(idx[d])])


def linear(S, key, d, body, out, cplx=False):
    """sum_t W(key, out, t) body(t): an uninterpreted linear functional of the range d."""
    r = ZERO
    ok = [o.key() for o in out]
    for t, w in S.points(d):
        tv = S.num(t)
        k = ("lin", key, tuple(ok), tv.key())
        W = Val(F.h(*k), F.h("im", *k) if cplx else None)
        r = vadd(r, vmul(W, body(t)))
    return summed(r)


@sem("cumsum")
def _cumsum(S, n, idx):
    ra = red_axes(n)
    if ra is None:
        return None
    d = ra[0][0]
    return linear(S, "prefix", ra[2][d], lambda t: S.val(n.args[0], idx[:d] + (t,) + idx[d + 1:]), [S.num(idx[d])])


@sem("diff")
def _diff(S, n, idx):
    d = n.attr[0]
    d = d[0] if isinstance(d, tuple) else d
    if not isinstance(d, int) or len(n.args) > 1:
        return None
    d = d % len(idx)
    a = S.val(n.args[0], idx[:d] + (idx[d] + 1,) + idx[d + 1:])
    return vsub(a, S.val(n.args[0], idx))


# -- linear algebra ----------------------------------------------------------------------

@sem("matmul")
def _matmul(S, n, idx):
    a, b = n.args
    if a.shape is None or b.shape is None:
        return None
    if len(a.shape) == 1 or len(b.shape) == 1:
        if len(a.shape) == 1 and len(b.shape) == 1:
            return _sumprod(S, a.shape[0], lambda t: S.val(a, (t,)), lambda t: S.val(b, (t,)))
        if len(b.shape) == 1:
            return _sumprod(S, b.shape[0], lambda t: S.val(a, bsub(a, idx[:-1], 1) + (idx[-1], t)) if len(a.shape) > 1 else None,
                            lambda t: S.val(b, (t,)))
        return _sumprod(S, a.shape[0], lambda t: S.val(a, (t,)),
                        lambda t: S.val(b, bsub(b, idx[:-1], 0) + (t, idx[-1])))
    i, j = idx[-2], idx[-1]
    la = bat(a, idx[:-2])
    lb = bat(b, idx[:-2])
    return _sumprod(S, a.shape[-1], lambda t: S.val(a, la + (i, t)), lambda t: S.val(b, lb + (t, j)))


def bat(a, lead):
    m = len(a.shape) - 2
    return tuple(lead[len(lead) - m:]) if m else ()


def bsub(a, lead, q):
    m = len(a.shape) - 2
    return tuple(lead[len(lead) - m:]) if m > 0 else ()


def _sumprod(S, d, f, g):
    r = ZERO
    for t, w in S.points(d):
        r = vadd(r, vmul(w, vmul(f(t), g(t))))
    return r


@sem("einsum")
def _einsum(S, n, idx):
    eq = n.attr
    if not isinstance(eq, str) or "->" not in eq:
        return None
    eq = eq.strip("'").replace(" ", "")
    lhs, rhs = eq.split("->")
    ins = lhs.split(",")
    if len(ins) != len(n.args) or any(a.shape is None for a in n.args):
        return None
    env = {}
    nd = len(idx)
    named = len(rhs.replace("...", ""))
    ell = nd - named
    pos = 0
    ellidx = ()
    q = 0
    while q < len(rhs):
        if rhs[q] == ".":
            ellidx = idx[pos:pos + ell]
            pos += ell
            q += 3
        else:
            env[rhs[q]] = idx[pos]
            pos += 1
            q += 1
    size = {}
    plans = []
    for s, a in zip(ins, n.args):
        letters = s.replace("...", "")
        e = len(a.shape) - len(letters)
        plan, pos, q = [], 0, 0
        while q < len(s):
            if s[q] == ".":
                plan += [("e", ell - e + z) for z in range(e)]
                pos += e
                q += 3
            else:
                plan.append(("l", s[q]))
                if not S.one(a.shape[pos]) or s[q] not in size:
                    size[s[q]] = a.shape[pos]
                pos += 1
                q += 1
        plans.append(plan)
    summed = sorted(set("".join(ins).replace(".", "")) - set(rhs))

    def rec(k, env):
        if k == len(summed):
            r = ONE
            for plan, a in zip(plans, n.args):
                r = vmul(r, S.val(a, tuple(ellidx[x] if w == "e" else env[x] for w, x in plan)))
            return r
        r = ZERO
        for t, w in S.points(size[summed[k]]):
            r = vadd(r, vmul(w, rec(k + 1, env | {summed[k]: t})))
        return r
    return rec(0, env)


@sem("cross")
def _cross(S, n, idx):
    return None


# -- transforms along an axis --------------------------------------------------------------

def _norm(S, v, norm, N, inverse):
    """torch norm conventions on top of the unnormalised sum."""
    norm = norm or "backward"
    if inverse:
        if norm == "backward":
            return vdiv(v, N)
        if norm == "ortho":
            return vmul(v, vpow(N, Fr(-1, 2)))
        return v
    if norm == "forward":
        return vdiv(v, N)
    if norm == "ortho":
        return vmul(v, vpow(N, Fr(-1, 2)))
    return v


def _dft(inverse, real):
    def g(S, n, idx):
        at = n.attr
        if at is None:
            return None
        nn, dim, norm, eff = at if len(at) == 4 else (at[0], at[1], at[2], None)
        if not isinstance(dim, int):
            return None
        a = n.args[0]
        if a.shape is None:
            return None
        k = dim % len(idx)
        if norm in ("None",):
            norm = None
        if n.op == "irfft":
            N = n.shape[k].p
        else:
            N = topoly(eff) if isinstance(eff, (Poly, int)) else (a.shape[k].p if n.op != "rfft" else None)
            if nn is not None and isinstance(nn, (Poly, int)):
                N = topoly(nn)
            if N is None:
                N = a.shape[k].p
        Nv = S.num(N)
        d = a.shape[k]
        body = lambda t: S.val(a, idx[:k] + (t,) + idx[k + 1:])
        key = ("dft", Nv.key())
        if n.op == "irfft":
            r = ZERO
            for t, w in S.points(d):
                v = body(t)
                kk = ("irdft", Nv.key(), S.num(idx[k]).key(), S.num(t).key())
                r = vadd(r, vadd(vmul(Val(F.h("a", *kk)), Val(v.re, None, v.taint, v.deps)),
                                 vmul(Val(F.h("b", *kk)), Val(v.im or F.ZERO, None, v.taint, v.deps))))
            return _norm(S, r, norm, Nv, True)
        r = linear(S, key + (("inv",) if inverse else ()), d, body, [S.num(idx[k])], cplx=True)
        return _norm(S, r, norm, Nv, inverse)
    return g


SEM["rfft"] = _dft(False, True)
SEM["fft"] = _dft(False, False)
SEM["ifft"] = _dft(True, False)
SEM["irfft"] = _dft(True, True)


@sem("fftshift", "ifftshift")
def _shift(S, n, idx):
    at = n.attr
    d = at[0] if isinstance(at, tuple) else at
    if isinstance(d, tuple):
        d = d[0] if len(d) == 1 else None
    if not isinstance(d, int):
        return None
    d = d % len(idx)
    j = opaque(n.op, None, [S.num(idx[d]), S.num(n.shape[d].p)])
    return S.val(n.args[0], idx[:d] + (Poly.atom(("intfn", "fpv", FpKey(j))),) + idx[d + 1:])


@sem("rfftfreq")
def _rfftfreq(S, n, idx):
    a, b = S.lam(n.args[0]), S.lam(n.args[1])
    return vdiv(S.num(idx[0]), vmul(a, b))


@sem("stft")
def _stft(S, n, idx):
    x, w = n.args[0], n.args[1] if len(n.args) > 1 else None
    if x.shape is None:
        return None
    r = ZERO
    lead = idx[:-2]
    for t, wt in S.points(x.shape[-1]):
        kk = ("stft", stable(n.attr), S.num(idx[-2]).key(), S.num(idx[-1]).key(), S.num(t).key())
        v = S.val(x, lead[len(lead) - (len(x.shape) - 1):] + (t,) if len(x.shape) > 1 else (t,))
        for t2, w2 in (S.points(w.shape[0]) if w is not None and w.shape else [(Poly.const(0), ONE)]):
            wv = S.val(w, (t2,)) if w is not None and w.shape else ONE
            k2 = kk + (S.num(t2).key(),)
            r = vadd(r, vmul(vmul(v, wv), Val(F.h(*k2), F.h("im", *k2))))
    return r


@sem("conv1d")
def _conv1d(S, n, idx):
    x, w = n.args[0], n.args[1]
    if x.shape is None or w.shape is None or len(x.shape) != 3:
        return None
    s, p, d, g = [topoly(v) for v in n.attr]
    if p.cval() != 0 or g.cval() is None and g != w.shape[0].p:
        return None
    r = ZERO
    if g.cval() == 1:
        for c, wc in S.points(w.shape[1]):
            for t, wt in S.points(w.shape[2]):
                r = vadd(r, vmul(vmul(wc, wt), vmul(S.val(w, (idx[1], c, t)), S.val(x, (idx[0], c, s * idx[2] + d * t)))))
    else:
        for t, wt in S.points(w.shape[2]):
            r = vadd(r, vmul(wt, vmul(S.val(w, (idx[1], Poly.const(0), t)), S.val(x, (idx[0], idx[1], s * idx[2] + d * t)))))
    if len(n.args) > 2:
        r = vadd(r, S.val(n.args[2], (idx[1],)))
    return r


@sem("interpolate")
def _interp(S, n, idx):
    at = n.attr
    x = n.args[0]
    if at is None or x.shape is None:
        return None
    m = len(at[1])

    def rec(k, cur, key):
        if k == m:
            kk = ("interp", at[0], at[2]) + key
            return vmul(Val(F.h(*kk)), S.val(x, idx[:len(idx) - m] + cur))
        r = ZERO
        if (S.norm(topoly(at[1][k])) - S.norm(x.shape[len(idx) - m + k].p)).is_zero() and at[2] == "None" and at[0] != "area":
            return rec(k + 1, cur + (idx[len(idx) - m + k],), key)
        for t, w in S.points(x.shape[len(idx) - m + k]):
            r = vadd(r, rec(k + 1, cur + (t,), key + (S.num(t).key(), S.num(idx[len(idx) - m + k]).key(),
                                                      S.num(at[1][k]).key())))
        return r
    return rec(0, (), ())


@sem("solve")
def _solve(S, n, idx):
    a, b = n.args
    if a.shape is None or b.shape is None:
        return None
    la = bat(a, idx[:-2])
    M = [S.val(a, la + (t, u)) for t in bound_points(S, a.shape[-2]) for u in bound_points(S, a.shape[-1])]
    lb = bat(b, idx[:-2])
    M = opaque("mat", None, M)
    r = linear(S, ("solve", M.key()), b.shape[-2], lambda t: S.val(b, lb + (t, idx[-1])), [S.num(idx[-2])])
    return Val(r.re, r.im, r.taint or M.taint, r.deps | M.deps)


@sem("trapz", "cumtrapz")
def _trapz(S, n, idx):
    at = n.attr
    d = at[0]
    d = d[0] if isinstance(d, tuple) else d
    y = n.args[0]
    if y.shape is None or not isinstance(d, int):
        return None
    d = d % len(y.shape)
    how = at[-1]
    N = y.shape[d].p

    def body(t):
        if n.op == "trapz":
            pre = idx[:d] + (t,) + idx[d:]
            nxt = idx[:d] + (t + 1,) + idx[d:]
        else:
            pre = idx[:d] + (t,) + idx[d + 1:]
            nxt = idx[:d] + (t + 1,) + idx[d + 1:]
        v = vmul(vadd(S.val(y, pre), S.val(y, nxt)), vconst(Fr(1, 2)))
        if len(n.args) > 1:
            x = n.args[1]
            if how == "x":
                if len(x.shape) == 1:
                    dx = vsub(S.val(x, (t + 1,)), S.val(x, (t,)))
                else:
                    dx = vsub(S.val(x, fit(S, x, nxt)), S.val(x, fit(S, x, pre)))
            else:
                dx = S.lam(x)
            v = vmul(v, dx)
        return v
    if n.op == "trapz":
        r = ZERO
        for t, w in S.points(N - 1):
            r = vadd(r, vmul(w, body(t)))
        return summed(r)
    return linear(S, "prefix", N - 1, body, [S.num(idx[d])])


@sem("gradient")
def _gradient(S, n, idx):
    at = n.attr
    d = at[0] if isinstance(at, tuple) else at
    d = d[0] if isinstance(d, tuple) else d
    if not isinstance(d, int):
        return None
    d = d % len(idx)
    a = n.args[0]
    if len(n.args) > 1 and n.args[1].shape not in ((), None):
        vs = [S.val(a, idx[:d] + (t,) + idx[d + 1:]) for t in bound_points(S, a.shape[d])]
        return opaque("gradient", stable(at), vs + [S.lam(x) for x in n.args[1:]] + [S.num(idx[d])])
    r = linear(S, ("gradient", stable(at)), a.shape[d], lambda t: S.val(a, idx[:d] + (t,) + idx[d + 1:]), [S.num(idx[d])])
    for x in n.args[1:]:
        r = vdiv(r, S.lam(x))
    return r


def _axis_opaque(axis=-1):
    def g(S, n, idx):
        a = n.args[0]
        if a.shape is None or n.shape is None or len(a.shape) != len(n.shape):
            return None
        k = len(idx) + axis
        vs = [S.val(a, idx[:k] + (t,)) for t in bound_points(S, a.shape[k])]
        return opaque(n.op, stable(n.attr), vs + [S.lam(x) for x in n.args[1:]] + [S.num(idx[k])])
    return g


SEM["filtfilt"] = _axis_opaque()


@sem("searchsorted", "bucketize")
def _search(S, n, idx):
    srt, x = (n.args[0], n.args[1]) if n.op == "searchsorted" else (n.args[1], n.args[0])
    if x.shape is None or srt.shape is None:
        return None
    if len(srt.shape) == 1:
        vs = [S.val(srt, (t,)) for t in bound_points(S, srt.shape[0])]
    else:
        vs = [S.val(srt, idx[:-1] + (t,)) for t in bound_points(S, srt.shape[-1])]
    return opaque("search", n.attr, vs + [S.val(x, idx)])


@sem("tri")
def _tri(S, n, idx):
    return None


@sem("meshgrid")
def _mesh(S, n, idx):
    k, ind = n.attr
    if len(n.args) != 1 or n.shape is None:
        return None
    j = k
    if ind == "xy" and k < 2:
        j = 1 - k
    return S.val(n.args[0], (idx[j],))


@sem("split")
def _split(S, n, idx):
    return None


@sem("outer")
def _outer(S, n, idx):
    a, b = n.args
    return vmul(S.val(a, idx[:1]), S.val(b, idx[1:]))


@sem("callback")
def _callback(S, n, idx):
    vs = []
    for a in n.args:
        vs.append(S.val(a, fit(S, a, idx)) if a.shape is not None else S.lam(a))
    return opaque("callback", stable(n.attr), vs)


@sem("absseq")
def _absseq(S, n, idx):
    return S.bound(n.attr, idx[0]).val(n.args[0], idx[1:])
