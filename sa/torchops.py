"""Operator table: shape / dtype / device / aliasing transfer functions."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import algebra as A
from .algebra import Poly, topoly, declare
from .values import *
from .shapes import *
from .torchmodel import (op, ew, OPS, SIG, dtype_arg, device_arg, join_device, as_array, numnode, num_of, is_scalar,
                         cast, to_device, store_into, pair, getitem, binop)


def T(I, v):
    """Coerce an operand to Tensor (or None when unknown)."""
    if isinstance(v, Tensor):
        return v
    if isinstance(v, (PyList, tuple, AbsSeq)) or is_scalar(v):
        return as_array(I, v)
    if v is None or isinstance(v, (str, Obj, PyDict)):
        I.err("TypeError", "tensor operand expected, got %r" % (v,))
    return I.tensor("top", tuple(I.deps(v)), "operand", None, None, None)


def pint(v):
    if isinstance(v, Num):
        c = v.p.cval()
        return int(c) if c is not None and c.denominator == 1 else None
    if isinstance(v, bool):
        return int(v)
    return v if isinstance(v, int) else None


def dims_arg(I, t, dim):
    if dim is None:
        return None if t.shape is None else list(range(len(t.shape)))
    ds = I.tolist(dim) if isinstance(dim, (PyList, tuple)) else [dim]
    out = []
    for d in ds:
        k = norm_dim(I, t.shape, d)
        if k is None:
            return None
        out.append(k)
    return out


# -- element-wise ------------------------------------------------------------

UN_FLOAT = ("sqrt rsqrt exp log log2 log10 log1p expm1 sin cos tan asin acos atan arcsin arccos arctan sinh cosh "
            "tanh asinh acosh atanh arccosh arcsinh arctanh sigmoid erf erfinv reciprocal lgamma digamma softplus "
            "relu gelu silu deg2rad rad2deg sinc special.i0 i0")
UN_SAME = ("neg negative positive abs absolute square round floor ceil trunc fix frac sign sgn conj conj_physical "
           "nan_to_num relu6 elu leaky_relu")
for _n in UN_FLOAT.split():
    _c = A.ALIAS.get(_n, _n)

    def _f(I, input, _c=_c, **kw):
        t = input if isinstance(input, Tensor) else (input if isinstance(input, Top) else T(I, input))
        return ew(I, _c, [t], "float")
    OPS[_n] = _f
    SIG[_n] = ["input"]
for _n in UN_SAME.split():
    _c = {"negative": "neg", "absolute": "abs", "fix": "trunc", "conj_physical": "conj"}.get(_n, _n)

    def _g(I, input, *, _c=_c, **kw):
        t = input if isinstance(input, (Tensor, Top)) else T(I, input)
        if _c == "abs":
            return ew(I, "abs", [t], "real")
        if _c == "nan_to_num" and kw:
            return ew(I, "nan_to_num", [t], attr=tuple(sorted((k, repr(v)) for k, v in kw.items())))
        return ew(I, _c, [t])
    OPS[_n] = _g
    SIG[_n] = ["input"]
SIG["round"] = ["input"]
SIG["nan_to_num"] = ["input", "nan", "posinf", "neginf"]

for _n in "isnan isinf isfinite logical_not signbit isreal".split():
    def _h(I, input, _n=_n):
        return ew(I, _n, [T(I, input)], "bool")
    OPS[_n] = _h
    SIG[_n] = ["input"]


@op("angle", "input")
def _angle(I, input):
    return ew(I, "angle", [T(I, input)], "real")


@op("bitwise_not", "input")
def _bnot(I, input):
    return ew(I, "not", [input])


for _n, _c, _r in [("add", "add", "promote"), ("sub", "sub", "promote"), ("subtract", "sub", "promote"),
                   ("mul", "mul", "promote"), ("multiply", "mul", "promote"), ("div", "div", "float"),
                   ("divide", "div", "float"), ("true_divide", "div", "float"), ("pow", "pow", "promote"),
                   ("maximum", "maximum", "promote"), ("minimum", "minimum", "promote"),
                   ("fmax", "maximum", "promote"), ("fmin", "minimum", "promote"),
                   ("remainder", "mod", "promote"), ("fmod", "fmod", "promote"), ("floor_divide", "floordiv", "promote"),
                   ("atan2", "atan2", "float"), ("arctan2", "atan2", "float"), ("hypot", "hypot", "float"),
                   ("copysign", "copysign", "float"), ("eq", "eq", "bool"), ("ne", "noteq", "bool"),
                   ("lt", "lt", "bool"), ("le", "lte", "bool"), ("gt", "gt", "bool"), ("ge", "gte", "bool"),
                   ("logical_and", "and", "bool"), ("logical_or", "or", "bool"), ("logical_xor", "xor", "bool"),
                   ("bitwise_and", "and", "promote"), ("bitwise_or", "or", "promote"), ("xlogy", "xlogy", "float"),
                   ("isclose", "isclose", "bool"), ("heaviside", "heaviside", "promote"),
                   ("float_power", "pow", "float")]:
    def _b(I, input, other, _c=_c, _r=_r, **kw):
        alpha = kw.get("alpha")
        if alpha is not None:
            other = I.binop("mul", other, alpha)
        if kw.get("rounding_mode") in ("floor", "trunc"):
            return ew(I, "floordiv", [input, other])
        if not isinstance(input, Tensor) and not isinstance(other, Tensor):
            input = T(I, input)
        return ew(I, _c, [input, other], _r)
    OPS[_n] = _b
    SIG[_n] = ["input", "other"]


@op("clamp clip", "input min max")
def _clamp(I, input, min=None, max=None):
    args = [T(I, input)]
    attr = []
    for nm, v in (("min", min), ("max", max)):
        if v is not None:
            args.append(v)
            attr.append(nm)
    return ew(I, "clamp", args, "promote", attr=tuple(attr))


@op("lerp", "input end weight")
def _lerp(I, input, end, weight):
    return binop(I, "add", input, binop(I, "mul", weight, binop(I, "sub", end, input)))


@op("addcmul", "input tensor1 tensor2")
def _addcmul(I, input, tensor1, tensor2, value=1):
    return binop(I, "add", input, binop(I, "mul", binop(I, "mul", tensor1, tensor2), value))


@op("where", "condition input other")
def _where(I, condition, input=None, other=None):
    c = T(I, condition)
    if input is None and other is None:
        cnt = Poly.atom(("intfn", "nnz", I.nd(c)))
        n = 1 if c.shape is None else len(c.shape)
        return tuple(I.tensor("where_idx", (c,), k, (Dim(cnt),), "i64", c.device) for k in range(n))
    args = [c, input, other]
    ts = [a for a in args if isinstance(a, Tensor)]
    sh = broadcast(I, [t.shape for t in ts], "where")
    dt = result_dtype([pair(a) for a in (input, other)])
    dev = join_device(I, ts, "where")
    return I.tensor("where", args, None, sh, dt, dev)


@op("complex", "real imag")
def _complex(I, real, imag):
    r, i = T(I, real), T(I, imag)
    if r.dtype is not None and i.dtype is not None and r.dtype != i.dtype:
        I.err("RuntimeError", "torch.complex expects matching dtypes, got %s and %s" % (r.dtype, i.dtype))
    if r.dtype is not None and CAT[r.dtype] != 2:
        I.err("RuntimeError", "torch.complex expects floating inputs")
    sh = broadcast(I, [r.shape, i.shape], "complex")
    return I.tensor("complex", (r, i), None, sh, to_complex(r.dtype), join_device(I, [r, i], "complex"))


@op("polar", "abs angle")
def _polar(I, abs, angle):
    r, i = T(I, abs), T(I, angle)
    sh = broadcast(I, [r.shape, i.shape], "polar")
    return I.tensor("polar", (r, i), None, sh, to_complex(r.dtype), join_device(I, [r, i], "polar"))


@op("masked_fill", "input mask value")
def _mf(I, input, mask, value):
    return _where(I, mask, value, input)


# -- reductions ----------------------------------------------------------------

def reduce_(I, name, t, dim, keepdim, dtype=None, attr=None, cat="reduce", extra=()):
    t = T(I, t)
    if isinstance(keepdim, (Cond, Top)):
        keepdim = I.truth(keepdim)
    if t.shape is None:
        d = None if dim is None else pint(dim)
        shape = () if (dim is None) else None
        return I.tensor(name, (t,) + tuple(extra), (d, bool(keepdim), attr), shape, dtype or t.dtype, t.device)
    ds = dims_arg(I, t, dim)
    if ds is None:
        return I.tensor(name, (t,) + tuple(extra), ("?",), None, dtype or t.dtype, t.device)
    I.ev("axis_op", op=name, cat=cat, dims=tuple(t.shape[d] for d in ds), node=I.nd(t), all=dim is None)
    shape = []
    for k, d in enumerate(t.shape):
        if k in ds:
            if keepdim:
                shape.append(Dim(1))
        else:
            shape.append(d)
    key = (tuple(sorted(d - len(t.shape) for d in ds)), bool(keepdim), attr)
    return I.tensor(name, (t,) + tuple(extra), key, tuple(shape), dtype if dtype is not None else t.dtype, t.device)


for _n in "sum prod nansum".split():
    def _s(I, input, dim=None, keepdim=False, dtype=None, _n=_n):
        t = T(I, input)
        dt = dtype_arg(I, dtype) or (t.dtype if t.dtype is None or CAT[t.dtype] >= 2 else "i64")
        return reduce_(I, _n, t, dim, keepdim, dt)
    OPS[_n] = _s
    SIG[_n] = ["input", "dim", "keepdim"]
for _n in "mean nanmean logsumexp amax amin norm".split():
    def _m(I, input, dim=None, keepdim=False, dtype=None, _n=_n, **kw):
        t = T(I, input)
        dt = dtype_arg(I, dtype) or t.dtype
        if _n == "norm":
            p = kw.get("p")
            dt = to_real(dt)
            return reduce_(I, _n, t, dim, keepdim, dt, attr=repr(p))
        if _n == "mean" and dt is not None and CAT[dt] < 2:
            I.err("RuntimeError", "mean of integer tensor")
        return reduce_(I, _n, t, dim, keepdim, dt)
    OPS[_n] = _m
    SIG[_n] = ["input", "dim", "keepdim"] if _n != "norm" else ["input", "p", "dim", "keepdim"]
for _n in "std var".split():
    def _sd(I, input, dim=None, unbiased=None, keepdim=False, correction=None, _n=_n, **kw):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        return reduce_(I, _n, input, dim, keepdim, to_real(T(I, input).dtype), attr=(repr(unbiased), repr(correction)))
    OPS[_n] = _sd
    SIG[_n] = ["input", "dim", "unbiased", "keepdim"]
for _n in "any all".split():
    def _aa(I, input, dim=None, keepdim=False, _n=_n):
        return reduce_(I, _n, input, dim, keepdim, "bool")
    OPS[_n] = _aa
    SIG[_n] = ["input", "dim", "keepdim"]
for _n in "argmax argmin count_nonzero".split():
    def _am(I, input, dim=None, keepdim=False, _n=_n):
        return reduce_(I, _n, input, dim, keepdim, "i64")
    OPS[_n] = _am
    SIG[_n] = ["input", "dim", "keepdim"]
for _n in "max min median mode nanmedian".split():
    def _mm(I, input, dim=None, keepdim=False, _n=_n, other=None):
        if other is not None:
            dim = other
        if isinstance(dim, Tensor):
            return ew(I, {"max": "maximum", "min": "minimum"}.get(_n, _n), [input, dim])
        v = reduce_(I, _n, input, dim, keepdim)
        if dim is None:
            return v
        i = I.tensor("arg" + _n, v._node.args, v._node.attr, v.shape, "i64", v.device)
        r = Obj(None, "namedtuple")
        r.attrs.update(values=v, indices=i)
        r.info["items"] = [v, i]
        r.cls = None
        return NT(v, i)
    OPS[_n] = _mm
    SIG[_n] = ["input", "dim", "keepdim"]


class NT(tuple):
    """(values, indices) named tuple."""
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))


@op("quantile nanquantile", "input q dim keepdim")
def _quantile(I, input, q, dim=None, keepdim=False, interpolation="linear"):
    qv = num_of(q) if not isinstance(q, Tensor) else numnode(I, q)
    t = T(I, input)
    if isinstance(q, Tensor) and q.shape is not None and len(q.shape) == 1 and dim is not None:
        r = reduce_(I, "quantile", t, dim, keepdim, attr="tensor", extra=(q,))
        if r.shape is not None:
            r.shape = (q.shape[0],) + r.shape
        return r
    return reduce_(I, "quantile", t, dim, keepdim, attr=qv)


@op("trapz trapezoid", "y x dim")
def _trapz(I, y, x=None, dim=-1, dx=None):
    extra = tuple(v for v in (x, dx) if v is not None)
    return reduce_(I, "trapz", y, dim, False, extra=extra, attr="x" if x is not None else ("dx" if dx is not None else None))


@op("linalg.norm linalg.vector_norm", "input ord dim keepdim")
def _lnorm(I, input, ord=None, dim=None, keepdim=False):
    return reduce_(I, "norm", input, dim, keepdim, to_real(T(I, input).dtype), attr=repr(ord))


# -- scans / reorderings ---------------------------------------------------------

def scan(I, name, t, dim, dtype=None, shape=None, attr=None, extra=(), cat="scan"):
    t = T(I, t)
    ds = dims_arg(I, t, dim) if t.shape is not None else None
    if ds is not None:
        I.ev("axis_op", op=name, cat=cat, dims=tuple(t.shape[d] for d in ds), node=I.nd(t), all=dim is None)
        key = tuple(d - len(t.shape) for d in ds)
    else:
        key = ("?",)
    return I.tensor(name, (t,) + tuple(extra), (key, attr), shape if shape is not None else t.shape,
                    dtype or t.dtype, t.device)


for _n in "cumsum cumprod logcumsumexp".split():
    def _cs(I, input, dim=0, dtype=None, _n=_n):
        t = T(I, input)
        dt = dtype_arg(I, dtype) or (t.dtype if t.dtype is None or CAT[t.dtype] >= 2 else "i64")
        return scan(I, _n, t, dim, dt)
    OPS[_n] = _cs
    SIG[_n] = ["input", "dim"]
for _n in "cummax cummin".split():
    def _cm(I, input, dim=0, _n=_n):
        v = scan(I, _n, input, dim)
        return NT(v, scan(I, "arg" + _n, input, dim, "i64"))
    OPS[_n] = _cm
    SIG[_n] = ["input", "dim"]
for _n in "sort topk".split():
    def _so(I, input, dim=-1, descending=False, _n=_n, k=None):
        v = scan(I, _n, input, dim, attr=repr(descending), cat="sort")
        return NT(v, scan(I, "arg" + _n, input, dim, "i64", cat="sort"))
    OPS[_n] = _so
    SIG[_n] = ["input", "dim", "descending"]


@op("argsort", "input dim descending")
def _argsort(I, input, dim=-1, descending=False):
    return scan(I, "argsort", input, dim, "i64", cat="sort")


@op("cumulative_trapezoid", "y x dim")
def _ct(I, y, x=None, dim=-1, dx=None):
    t = T(I, y)
    sh = None
    if t.shape is not None:
        k = norm_dim(I, t.shape, dim)
        sh = tuple(Dim(d.p - 1) if j == k else d for j, d in enumerate(t.shape))
    return scan(I, "cumtrapz", t, dim, shape=sh, extra=tuple(v for v in (x, dx) if v is not None),
                attr="x" if x is not None else "dx")


@op("diff", "input n dim")
def _diff(I, input, n=1, dim=-1, prepend=None, append=None):
    t = T(I, input)
    sh = None
    if t.shape is not None:
        k = norm_dim(I, t.shape, dim)
        add = 0
        for v in (prepend, append):
            if isinstance(v, Tensor) and v.shape is not None:
                add = v.shape[k].p + add
        sh = tuple(Dim(d.p - (pint(n) or 1) + add) if j == k else d for j, d in enumerate(t.shape))
    return scan(I, "diff", t, dim, shape=sh, extra=tuple(v for v in (prepend, append) if v is not None))


@op("gradient", "input")
def _gradient(I, input, spacing=None, dim=None, edge_order=1):
    t = T(I, input)
    sp = I.tolist(spacing) if isinstance(spacing, (tuple, PyList)) else spacing
    extra = tuple(sp) if isinstance(sp, list) else ((spacing,) if spacing is not None else ())
    ds = dims_arg(I, t, dim) if t.shape is not None else [0]
    return tuple(scan(I, "gradient", t, d, extra=extra) for d in (ds or [0]))


@op("flip", "input *dims")
def _flip(I, input, dims=()):
    if isinstance(dims, list) and len(dims) == 1 and isinstance(dims[0], (tuple, PyList)):
        dims = dims[0]
    if isinstance(dims, list):
        dims = tuple(dims)
    return scan(I, "flip", input, dims, cat="reorder")


@op("fliplr", "input")
def _fliplr(I, input):
    return scan(I, "flip", input, 1, cat="reorder")


@op("roll", "input shifts dims")
def _roll(I, input, shifts, dims=None):
    extra = [shifts] if not isinstance(shifts, (tuple, PyList)) else I.tolist(shifts)
    if dims is None and T(I, input).shape is not None and len(T(I, input).shape) == 1:
        dims = 0
    return scan(I, "roll", input, dims, extra=tuple(extra), cat="reorder")


# -- views -------------------------------------------------------------------------

NONCONTIG = {"permute", "expand", "unfold", "index"}


def contiguous(t):
    if t.base is None:
        return True
    for o, attr, sh in t.view:
        if o in ("permute", "expand", "unfold"):
            return False
        if o == "index":
            seen_dim = False
            for k in attr:
                if k[0] == "slice" and seen_dim:
                    return False
                if k[0] in ("slice", "all"):
                    seen_dim = True
                if k[0] == "int" and seen_dim:
                    return False
        if o in ("real", "imag", "diagonal"):
            return False
    return True


def sizes_arg(I, sizes):
    if isinstance(sizes, list):
        out = []
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, PyList, AbsSeq)):
            sizes = I.tolist(sizes[0])
            if sizes is None:
                return None
        for s in sizes:
            out.append(size1(I, s))
        return out
    if isinstance(sizes, (tuple, PyList)):
        return [size1(I, s) for s in I.tolist(sizes)]
    if isinstance(sizes, Top):
        return None
    return [size1(I, sizes)]


def size1(I, s):
    if isinstance(s, bool):
        return int(s)
    if isinstance(s, int):
        return s
    if isinstance(s, Num):
        if s.kind == "float":
            I.ev("float_size", value=s.p)
            I.err("TypeError", "a float where a size is required")
        return s.p
    if isinstance(s, Tensor):
        n = numnode(I, s)
        return n if n is not None else Poly.atom(("item", I.nd(s)))
    if isinstance(s, Top):
        return None
    return None


@op("reshape view view_as reshape_as", "input *shape")
def _reshape(I, input, shape=(), **kw):
    t = T(I, input)
    if len(shape) == 1 and isinstance(shape[0], Ext):      # view(dtype)
        return I.top("view(dtype)", t)
    if len(shape) == 1 and isinstance(shape[0], Tensor) and shape[0].shape is not None and len(shape[0].shape):
        dims = shape[0].shape
        sizes = [d.p for d in dims]
    else:
        sizes = sizes_arg(I, shape)
        if sizes is not None and any(c is not None and c < -1 for c in (x if isinstance(x, int) else topoly(x).cval() if isinstance(x, Poly) else None for x in sizes)):
            I.err("RuntimeError", "invalid shape dimension")
    if sizes is None:
        return I.viewof(t, "reshape", ("?",), None)
    dims = reshape_dims(I, t.shape, sizes)
    key = tuple(s if s is None or isinstance(s, int) else s for s in sizes)
    if dims is not None:
        key = tuple(d.p for d in dims)
    if contiguous(t) or (t.shape is not None and dims is not None and
                         sum(1 for d in dims if not d.is1()) == sum(1 for d in t.shape if not d.is1()) and
                         all(a.p == b.p for a, b in zip([d for d in dims if not d.is1()],
                                                        [d for d in t.shape if not d.is1()]))):
        return I.viewof(t, "reshape", key, dims)
    return I.tensor("reshape", (t,), key, dims, t.dtype, t.device)


@op("flatten ravel", "input start_dim end_dim")
def _flatten(I, input, start_dim=0, end_dim=-1):
    t = T(I, input)
    if t.shape is None:
        return I.viewof(t, "reshape", ("?",), None)
    if len(t.shape) == 0:
        return I.viewof(t, "reshape", (Poly.const(1),), (Dim(1),))
    a, b = norm_dim(I, t.shape, start_dim), norm_dim(I, t.shape, end_dim)
    dims = t.shape[:a] + (mergelab(t.shape[a:b + 1]),) + t.shape[b + 1:]
    return I.viewof(t, "reshape", tuple(d.p for d in dims), dims)


@op("unflatten", "input dim sizes")
def _unflatten(I, input, dim, sizes):
    t = T(I, input)
    k = norm_dim(I, t.shape, dim)
    sz = sizes_arg(I, sizes)
    if k is None or sz is None:
        return I.viewof(t, "reshape", ("?",), None)
    allsz = [d.p for d in t.shape[:k]] + sz + [d.p for d in t.shape[k + 1:]]
    dims = reshape_dims(I, t.shape, allsz)
    return I.viewof(t, "reshape", None if dims is None else tuple(d.p for d in dims), dims)


def permute_(I, t, perm):
    if t.shape is None:
        return I.viewof(t, "permute", ("?",), None)
    dims = tuple(t.shape[p] for p in perm)
    if list(perm) == list(range(len(perm))):
        return t
    return I.viewof(t, "permute", tuple(p - len(perm) for p in perm), dims)


@op("transpose swapaxes swapdims", "input dim0 dim1")
def _transpose(I, input, dim0=None, dim1=None):
    t = T(I, input)
    a, b = norm_dim(I, t.shape, dim0), norm_dim(I, t.shape, dim1)
    if a is None or b is None:
        return I.viewof(t, "permute", ("?",), None)
    perm = list(range(len(t.shape)))
    perm[a], perm[b] = perm[b], perm[a]
    return permute_(I, t, perm)


@op("permute", "input *dims")
def _permute(I, input, dims=()):
    t = T(I, input)
    if len(dims) == 1 and isinstance(dims[0], (tuple, PyList)):
        dims = I.tolist(dims[0])
    ds = [norm_dim(I, t.shape, d) for d in dims]
    if None in ds:
        return I.viewof(t, "permute", ("?",), None)
    return permute_(I, t, ds)


@op("movedim moveaxis", "input source destination")
def _movedim(I, input, source, destination):
    t = T(I, input)
    a, b = norm_dim(I, t.shape, source), norm_dim(I, t.shape, destination)
    if a is None or b is None:
        return I.viewof(t, "permute", ("?",), None)
    perm = [k for k in range(len(t.shape)) if k != a]
    perm.insert(b, a)
    return permute_(I, t, perm)


@op("t", "input")
def _t(I, input):
    t = T(I, input)
    if t.shape is not None and len(t.shape) < 2:
        return t
    return permute_(I, t, [1, 0])


@op("unsqueeze", "input dim")
def _unsqueeze(I, input, dim):
    t = T(I, input)
    d = pint(dim)
    if t.shape is None or d is None:
        return I.viewof(t, "reshape", ("?",), None)
    n = len(t.shape) + 1
    if d < -n or d >= n:
        I.err("IndexError", "unsqueeze dim out of range")
    d %= n
    dims = t.shape[:d] + (Dim(1),) + t.shape[d:]
    return I.viewof(t, "reshape", tuple(x.p for x in dims), dims)


@op("squeeze", "input dim")
def _squeeze(I, input, dim=None):
    t = T(I, input)
    if t.shape is None:
        return I.viewof(t, "reshape", ("?",), None)
    if dim is None:
        dims = tuple(d for d in t.shape if not d.is1())
        for d in dims:
            if not d.p.is_const():
                I.ev("squeeze_all", dim=d.p)
    else:
        ds = dims_arg(I, t, dim)
        dims = []
        for k, d in enumerate(t.shape):
            if k in ds:
                if d.is1():
                    continue
                if not d.p.is_const():
                    I.ev("squeeze_maybe", dim=d.p)
            dims.append(d)
        dims = tuple(dims)
    if len(dims) == len(t.shape):
        return I.viewof(t, "reshape", tuple(x.p for x in dims), dims)
    return I.viewof(t, "reshape", tuple(x.p for x in dims), dims)


@op("expand expand_as broadcast_to", "input *sizes")
def _expand(I, input, sizes=(), size=None):
    t = T(I, input)
    if size is not None:
        sizes = [size] if not isinstance(size, list) else size
    if len(sizes) == 1 and isinstance(sizes[0], Tensor) and sizes[0].shape is not None and len(sizes[0].shape):
        sz = [d.p for d in sizes[0].shape]
        target = sizes[0].shape
    else:
        sz = sizes_arg(I, list(sizes))
        target = None
    if sz is None or t.shape is None or any(s is None for s in sz):
        return I.viewof(t, "expand", ("?",), None if sz is None or any(s is None for s in (sz or [None])) else tuple(
            Dim(s) if not (isinstance(s, int) and s == -1) else Dim(Poly.atom(("s", I.freshname("d")))) for s in sz))
    n = len(sz)
    if n < len(t.shape):
        I.err("RuntimeError", "expand to fewer dimensions")
    out = []
    for k, s in enumerate(sz):
        j = k - n + len(t.shape)
        cur = t.shape[j] if j >= 0 else Dim(1)
        if isinstance(s, int) and s == -1:
            out.append(cur)
            continue
        s = topoly(s)
        if cur.is1():
            out.append(target[k] if target is not None else Dim(s))
        else:
            r = I.same(cur.p - s)
            if r is not True:
                I.ev("dim_mismatch", a=cur, b=Dim(s), op="expand", proven=r is False, k=k - n,
                     shapes=(t.shape, tuple(Dim(topoly(x)) for x in sz if not (isinstance(x, int) and x == -1))))
                if r is False or I.differ(cur.p, s) or I.ge0(-s - 1):
                    I.err("RuntimeError", "expand of %r to %r" % (cur, s))
            out.append(cur)
    return I.viewof(t, "expand", tuple(d.p for d in out), tuple(out))


@op("unfold", "input dimension size step")
def _unfold(I, input, dimension, size, step):
    t = T(I, input)
    k = norm_dim(I, t.shape, dimension)
    a, b = num_of(size), num_of(step)
    if k is None or a is None or b is None:
        return I.viewof(t, "unfold", ("?",), None)
    N = t.shape[k].p
    n = A.idiv(N - a, b) + 1
    dims = t.shape[:k] + (Dim(n),) + t.shape[k + 1:] + (Dim(a),)
    I.ev("axis_op", op="unfold", cat="window", dims=(t.shape[k],), node=I.nd(t))
    I.ev("unfold", dim=N, size=a, step=b)
    return I.viewof(t, "unfold", (k - len(t.shape), a, b), dims)


@op("narrow", "input dim start length")
def _narrow(I, input, dim, start, length):
    t = T(I, input)
    k = norm_dim(I, t.shape, dim)
    if k is None:
        return I.viewof(t, "index", ("?",), None)
    idx = [SliceV(None, None, None)] * len(t.shape)
    idx[k] = SliceV(start, I.binop("add", start, length), None)
    return getitem(I, t, tuple(idx))


@op("select", "input dim index")
def _select(I, input, dim, index):
    t = T(I, input)
    k = norm_dim(I, t.shape, dim)
    if k is None:
        return I.viewof(t, "index", ("?",), None)
    idx = [SliceV(None, None, None)] * len(t.shape)
    idx[k] = index
    return getitem(I, t, tuple(idx))


@op("split", "tensor split_size_or_sections dim")
def _split(I, tensor=None, split_size_or_sections=None, dim=0, **kw):
    if tensor is None:
        tensor = kw.get("input")
    if split_size_or_sections is None:
        split_size_or_sections = kw.get("split_size")
    t = T(I, tensor)
    k = norm_dim(I, t.shape, dim)
    s = split_size_or_sections
    secs = I.tolist(s) if isinstance(s, (tuple, PyList)) else None
    if k is None:
        return I.top("split", t)
    I.ev("axis_op", op="split", cat="select", dims=(t.shape[k],), node=I.nd(t))

    def piece(a, b):
        key = tuple(("all",) if j != k else ("slice", topoly(a), topoly(b), 1) for j in range(len(t.shape)))
        dims = tuple(d if j != k else Dim(topoly(b) - topoly(a)) for j, d in enumerate(t.shape))
        return I.viewof(t, "index", key, dims)
    if secs is not None:
        out, pos = [], Poly.const(0)
        for x in secs:
            p = num_of(x)
            if p is None:
                return I.top("split sections", t)
            out.append(piece(pos, pos + p))
            pos = pos + p
        if I.same(pos - t.shape[k].p) is not True:
            I.ev("split_mismatch", total=pos, dim=t.shape[k].p)
        return tuple(out)
    if isinstance(s, AbsSeq):
        return AbsSeq(lambda i: I.tensor("split", (t,), (k - len(t.shape), i),
                                         tuple(d if j != k else Dim(Poly.atom(("s", I.freshname("seg"))))
                                               for j, d in enumerate(t.shape)), t.dtype, t.device), s.length)
    p = num_of(s)
    if p is None:
        return I.top("split size", t)
    N = t.shape[k].p
    q = A.idiv(N + p - 1, p)
    c = q.cval()
    if c is not None and c <= 32:
        return tuple(piece(p * i, (p * (i + 1)) if i < c - 1 else N) for i in range(int(c)))
    return AbsSeq(lambda i: piece(p * i, p * i + p), q)


@op("chunk tensor_split", "input chunks dim")
def _chunk(I, input, chunks, dim=0):
    t = T(I, input)
    k = norm_dim(I, t.shape, dim)
    c = pint(chunks)
    if k is None or c is None:
        return I.top("chunk", t)
    sz = A.idiv(t.shape[k].p + c - 1, Poly.const(c))
    out = []
    for i in range(c):
        key = tuple(("all",) if j != k else ("slice", sz * i, sz * (i + 1), 1) for j in range(len(t.shape)))
        dims = tuple(d if j != k else Dim(sz) for j, d in enumerate(t.shape))
        out.append(I.viewof(t, "index", key, dims))
    return tuple(out)


@op("unbind", "input dim")
def _unbind(I, input, dim=0):
    t = T(I, input)
    k = norm_dim(I, t.shape, dim)
    c = None if k is None else t.shape[k].p.cval()
    if c is None:
        return I.top("unbind", t)
    return tuple(_select(I, t, k, i) for i in range(int(c)))


@op("view_as_real", "input")
def _var(I, input):
    t = T(I, input)
    return I.viewof(t, "view_as_real", None, None if t.shape is None else t.shape + (Dim(2),), to_real(t.dtype))


@op("view_as_complex", "input")
def _vac(I, input):
    t = T(I, input)
    return I.viewof(t, "view_as_complex", None, None if t.shape is None else t.shape[:-1], to_complex(t.dtype))


@op("diagonal", "input offset dim1 dim2")
def _diagonal(I, input, offset=0, dim1=0, dim2=1):
    t = T(I, input)
    a, b = norm_dim(I, t.shape, dim1), norm_dim(I, t.shape, dim2)
    if a is None or b is None:
        return I.viewof(t, "diagonal", ("?",), None)
    dims = tuple(d for k, d in enumerate(t.shape) if k not in (a, b)) + (t.shape[a],)
    return I.viewof(t, "diagonal", (repr(offset), a - len(t.shape), b - len(t.shape)), dims)


@op("real", "input")
def _real(I, input):
    t = T(I, input)
    if t.dtype is not None and not is_complex(t.dtype):
        return t
    return I.viewof(t, "real", None, t.shape, to_real(t.dtype))


@op("imag", "input")
def _imag(I, input):
    t = T(I, input)
    if t.dtype is not None and not is_complex(t.dtype):
        I.err("RuntimeError", "imag of a real tensor")
    return I.viewof(t, "imag", None, t.shape, to_real(t.dtype))


@op("detach", "input")
def _detach(I, input):
    t = T(I, input)
    I.ev("detach", node=I.nd(t), how="detach")
    r = I.viewof(t, "detach", None, t.shape)
    return r


@op("clone", "input")
def _clone(I, input, **kw):
    t = T(I, input)
    r = Tensor(Storage(), I.nd(t), t.shape, t.dtype, t.device)
    return r


@op("contiguous", "input")
def _contig(I, input, **kw):
    t = T(I, input)
    if contiguous(t):
        return t
    return Tensor(Storage(), I.nd(t), t.shape, t.dtype, t.device)


@op("atleast_1d", "input")
def _al1(I, input):
    t = T(I, input)
    if t.shape is not None and len(t.shape) == 0:
        return _unsqueeze(I, t, 0)
    return t


# -- combining -----------------------------------------------------------------------

@op("cat concat concatenate hstack", "tensors dim")
def _cat(I, tensors, dim=0):
    items = I.tolist(tensors)
    if items is None:
        if isinstance(tensors, AbsSeq):
            j = I.freshname("j")
            e = T(I, tensors.elem(A.declare(j, integer=True, lo=0, pos=False)))
            k = norm_dim(I, e.shape, dim)
            if k is None or any(j in d.p.deep_syms() for d in e.shape):
                return I.tensor("cat", (e,), "abs", None, e.dtype, e.device)
            seglab = e.shape[k].p
            e2 = T(I, tensors.elem(A.declare(I.freshname("j"), integer=True, lo=0, pos=False)))
            if I.nd(e2) is I.nd(e):
                reps = tuple(Poly.const(1) if j != k else tensors.length for j in range(len(e.shape)))
                dims = tuple(d if j != k else Dim(tensors.length * seglab) for j, d in enumerate(e.shape))
                return I.tensor("repeat", (e,), reps, dims, e.dtype, e.device)
            dims = tuple(d if j != k else Dim(tensors.length * seglab) for j, d in enumerate(e.shape))
            return I.tensor("cat", (e,), ("abs", k - len(e.shape), tensors.length, j), dims, e.dtype, e.device)
        return I.tensor("cat", (I.asnode(tensors),), None, None, None, None)
    if not items:
        I.err("RuntimeError", "cat expects a non-empty list")
    ts = [T(I, x) for x in items]
    dt = ts[0].dtype if ts else None
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    dev = join_device(I, ts, "cat", strict=True)
    if any(t.shape is None for t in ts) or not ts:
        return I.tensor("cat", ts, None, None, dt, dev)
    k = norm_dim(I, ts[0].shape, dim)
    if k is None:
        return I.tensor("cat", ts, None, None, dt, dev)
    out = []
    for j in range(len(ts[0].shape)):
        if j == k:
            tot = Poly.const(0)
            for t in ts:
                tot = tot + t.shape[j].p
            I.ev("axis_op", op="cat", cat="concat", dims=tuple(t.shape[j] for t in ts), node=I.nd(ts[0]))
            out.append(Dim(tot))
        else:
            d = ts[0].shape[j]
            for t in ts[1:]:
                if j < len(t.shape) and t.shape[j].p != d.p and I.same(t.shape[j].p - d.p) is not True:
                    I.ev("dim_mismatch", a=d, b=t.shape[j], op="cat", proven=I.same(t.shape[j].p - d.p) is False,
                         k=j, shapes=tuple(x.shape for x in ts))
                    I.clash(t.shape[j].p, d.p, "cat")
                if j < len(t.shape) and d.p.is_const() is False and t.shape[j].p.is_const():
                    d = t.shape[j]
            out.append(d)
    return I.tensor("cat", ts, k - len(out), tuple(out), dt, dev)


@op("stack", "tensors dim")
def _stack(I, tensors, dim=0):
    items = I.tolist(tensors)
    if items is None:
        if isinstance(tensors, AbsSeq):
            j = I.freshname("j")
            e = T(I, tensors.elem(A.declare(j, integer=True, lo=0, pos=False)))
            if e.shape is None or any(j in d.p.deep_syms() for d in e.shape):
                return I.tensor("stack", (e,), "abs", None, e.dtype, e.device)
            d = pint(dim)
            n = len(e.shape) + 1
            d %= n
            dims = e.shape[:d] + (Dim(tensors.length),) + e.shape[d:]
            return I.tensor("stack", (e,), ("abs", d - n, tensors.length, j), dims, e.dtype, e.device)
        return I.tensor("stack", (I.asnode(tensors),), None, None, None, None)
    if not items:
        I.err("RuntimeError", "stack expects a non-empty list")
    ts = [T(I, x) for x in items]
    dt = ts[0].dtype if ts else None
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    dev = join_device(I, ts, "stack", strict=True)
    if not ts or any(t.shape is None for t in ts):
        return I.tensor("stack", ts, pint(dim), None, dt, dev)
    n = len(ts[0].shape) + 1
    d = pint(dim)
    d = d % n
    base = list(ts[0].shape)
    for t in ts[1:]:
        if len(t.shape) != len(base):
            I.err("RuntimeError", "stack expects equal ranks")
        for j, (a, b) in enumerate(zip(base, t.shape)):
            if a.p != b.p and I.same(a.p - b.p) is not True:
                if a.p.is_const() and b.p.is_const():
                    I.err("RuntimeError", "stack expects equal sizes")
                I.ev("dim_mismatch", a=a, b=b, op="stack", proven=I.same(a.p - b.p) is False, k=j,
                     shapes=tuple(x.shape for x in ts))
                I.clash(a.p, b.p, "stack")
            if not a.p.is_const() and b.p.is_const():
                base[j] = b
    dims = tuple(base[:d]) + (Dim(len(ts)),) + tuple(base[d:])
    return I.tensor("stack", ts, d - n, dims, dt, dev)


@op("column_stack", "tensors")
def _colstack(I, tensors):
    items = I.tolist(tensors)
    if items is None:
        return I.top("column_stack", tensors)
    ts = [T(I, x) for x in items]
    if all(t.shape is not None and len(t.shape) == 1 for t in ts):
        return _stack(I, PyList(ts), 1)
    if all(t.shape is not None and len(t.shape) >= 2 for t in ts):
        return _cat(I, PyList(ts), 1)
    if all(t.shape is not None and len(t.shape) == 0 for t in ts):
        s = _stack(I, PyList(ts), 0)
        return _unsqueeze(I, s, 0)
    return I.tensor("column_stack", ts, None, None, ts[0].dtype if ts else None, join_device(I, ts, "column_stack"))


@op("meshgrid", "*tensors")
def _meshgrid(I, tensors=(), indexing="ij"):
    ts = [T(I, x) for x in (I.tolist(tensors[0]) if len(tensors) == 1 and not isinstance(tensors[0], Tensor)
                            else tensors)]
    if any(t.shape is None for t in ts):
        return I.top("meshgrid", *ts)
    dims = tuple(t.shape[0] if len(t.shape) else Dim(1) for t in ts)
    if indexing == "xy" and len(dims) >= 2:
        dims = (dims[1], dims[0]) + dims[2:]
    return tuple(I.tensor("meshgrid", (t,), (k, indexing), dims, t.dtype, t.device) for k, t in enumerate(ts))


def index_like(I, name, t, dim, index):
    t, ix = T(I, t), T(I, index)
    k = norm_dim(I, t.shape, dim) if t.shape is not None else None
    if k is not None:
        I.ev("axis_op", op=name, cat="gather", dims=(t.shape[k],), node=I.nd(t))
        I.ev("adv_index", index=I.nd(ix), dim=t.shape[k].p, tensor=I.nd(t))
    if ix.device not in (None, t.device) and t.device is not None and ix.shape is not None and "D" in (
            ix.device, t.device):
        I.ev("device_mix", op=name, devices=(t.device, ix.device), tensors=(I.nd(t), I.nd(ix)))
    return t, ix, k


@op("gather take_along_dim", "input dim index indices")
def _gather(I, input, dim=None, index=None, indices=None, **kw):
    if index is None and indices is not None:
        index = indices
    if isinstance(dim, Tensor):
        dim, index = index, dim
    t, ix, k = index_like(I, "gather", input, dim, index)
    sh = ix.shape
    if t.shape is not None and ix.shape is not None and k is not None and len(t.shape) == len(ix.shape):
        for j, (a, b) in enumerate(zip(t.shape, ix.shape)):
            if j != k and a.p != b.p and not a.is1() and not b.is1():
                if I.same(a.p - b.p) is not True:
                    I.ev("dim_mismatch", a=a, b=b, op="gather", proven=I.same(a.p - b.p) is False, k=j,
                         shapes=(t.shape, ix.shape))
    return I.tensor("gather_dim", (t, ix), None if k is None or t.shape is None else k - len(t.shape), sh, t.dtype,
                    t.device)


OPS["take_along_dim"] = lambda I, input, indices=None, dim=None: _gather(I, input, dim, indices)
SIG["take_along_dim"] = ["input", "indices", "dim"]
SIG["gather"] = ["input", "dim", "index"]


@op("index_select", "input dim index")
def _isel(I, input, dim, index):
    t, ix, k = index_like(I, "index_select", input, dim, index)
    sh = None
    if k is not None and ix.shape is not None:
        sh = t.shape[:k] + (ix.shape[0] if ix.shape else Dim(1),) + t.shape[k + 1:]
    return I.tensor("index_select", (t, ix), k, sh, t.dtype, t.device)


@op("take", "input index")
def _take(I, input, index):
    t, ix = T(I, input), T(I, index)
    I.ev("axis_op", op="take", cat="take", dims=tuple(t.shape or ()), node=I.nd(t))
    I.ev("take", index=I.nd(ix), shape=t.shape, tensor=I.nd(t))
    if ix.device not in (None, t.device) and t.device is not None and "D" in (ix.device, t.device):
        I.ev("device_mix", op="take", devices=(t.device, ix.device), tensors=(I.nd(t), I.nd(ix)))
    return I.tensor("take", (t, ix), None, ix.shape, t.dtype, t.device)


@op("masked_select", "input mask")
def _msel(I, input, mask):
    return getitem(I, T(I, input), mask)


for _n in ("scatter", "scatter_add", "index_add"):
    def _scatter(I, input, dim, index, src=None, value=None, _n=_n, **kw):
        t, ix, k = index_like(I, _n, input, dim, index)
        v = src if src is not None else value if value is not None else kw.get("source")
        dev = join_device(I, [x for x in (t, ix, v) if isinstance(x, Tensor)], _n)
        name = _n if not any(x is not None for x in (kw.get("reduce"), kw.get("alpha"))) else "scatter_reduce"
        return I.tensor(name, (t, ix, v), None if k is None else k - len(t.shape), t.shape, t.dtype, dev)
    OPS[_n] = _scatter
    SIG[_n] = ["input", "dim", "index", "src"]


@op("repeat", "input *repeats")
def _repeat(I, input, repeats=()):
    t = T(I, input)
    if len(repeats) == 1 and isinstance(repeats[0], (tuple, PyList)):
        repeats = I.tolist(repeats[0])
    ps = [numnode(I, r) for r in repeats]
    if t.shape is None or any(p is None for p in ps):
        return I.tensor("repeat", (t,), None, None, t.dtype, t.device)
    n = len(ps)
    sh = (Dim(1),) * (n - len(t.shape)) + t.shape
    dims = []
    for p, d in zip(ps, sh):
        if p.cval() == 1:
            dims.append(d)
        else:
            dims.append(Dim(p * d.p, (p,) + d.lab if not d.is1() else (p,)))
    return I.tensor("repeat", (t,), tuple(ps), tuple(dims), t.dtype, t.device)


@op("tile", "input *dims")
def _tile(I, input, dims=()):
    return _repeat(I, input, dims)


@op("repeat_interleave", "input repeats dim")
def _ri(I, input, repeats, dim=None):
    t = T(I, input)
    p = num_of(repeats)
    if t.shape is None or p is None:
        cnt = None
        if isinstance(repeats, Tensor) and t.shape is not None and len(t.shape) == 1:
            return I.tensor("repeat_interleave", (t, repeats), None,
                            (Dim(Poly.atom(("intfn", "sum", I.nd(repeats)))),), t.dtype, t.device)
        return I.tensor("repeat_interleave", (t, I.asnode(repeats)), None, None, t.dtype, t.device)
    if dim is None:
        t = _flatten(I, t)
        dim = 0
    k = norm_dim(I, t.shape, dim)
    dims = tuple(Dim(d.p * p, d.lab + (p,)) if j == k else d for j, d in enumerate(t.shape))
    return I.tensor("repeat_interleave", (t,), (k - len(t.shape), p), dims, t.dtype, t.device)


@op("outer ger", "input vec2")
def _outer(I, input, vec2=None, other=None):
    a, b = T(I, input), T(I, vec2 if vec2 is not None else other)
    dt = promote(a.dtype, b.dtype)
    sh = None
    if a.shape is not None and b.shape is not None:
        if len(a.shape) != 1 or len(b.shape) != 1:
            I.err("RuntimeError", "outer: 1-D tensors expected")
        sh = (a.shape[0], b.shape[0])
    x = _unsqueeze(I, a, 1)
    return ew(I, "mul", [x, b]) if sh is not None else I.tensor("outer", (a, b), None, sh, dt,
                                                               join_device(I, [a, b], "outer"))


@op("matmul mm bmm dot inner vdot mv", "input other")
def _matmul(I, input, other=None, tensor=None, mat2=None, **kw):
    a, b = T(I, input), T(I, other if other is not None else (tensor if tensor is not None else mat2))
    dt = promote(a.dtype, b.dtype)
    if a.dtype and b.dtype and a.dtype != b.dtype:
        I.err("RuntimeError", "matmul dtype mismatch %s vs %s" % (a.dtype, b.dtype))
    dev = join_device(I, [a, b], "matmul", strict=True)
    sh = None
    if a.shape is not None and b.shape is not None:
        if len(a.shape) == 1 and len(b.shape) == 1:
            con = (a.shape[0], b.shape[0])
            sh = ()
        elif len(b.shape) == 1:
            con = (a.shape[-1], b.shape[0])
            sh = a.shape[:-1]
        elif len(a.shape) == 1:
            con = (a.shape[0], b.shape[-2])
            sh = b.shape[:-2] + b.shape[-1:]
        else:
            con = (a.shape[-1], b.shape[-2])
            sh = broadcast(I, [a.shape[:-2], b.shape[:-2]], "matmul") + (a.shape[-2], b.shape[-1])
        if con[0].p != con[1].p and I.same(con[0].p - con[1].p) is not True:
            if con[0].p.is_const() and con[1].p.is_const():
                I.err("RuntimeError", "matmul size mismatch")
            I.ev("dim_mismatch", a=con[0], b=con[1], op="matmul", proven=I.same(con[0].p - con[1].p) is False,
                 k=-1, shapes=(a.shape, b.shape))
            I.clash(con[0].p, con[1].p, "matmul")
        I.ev("axis_op", op="matmul", cat="contract", dims=(con[0], con[1]), node=I.nd(a), other=I.nd(b))
    return I.tensor("matmul", (a, b), None, sh, dt, dev)


@op("einsum", "equation *operands")
def _einsum(I, equation, operands=()):
    if len(operands) == 1 and isinstance(operands[0], (tuple, PyList)):
        operands = I.tolist(operands[0])
    ts = [T(I, x) for x in operands]
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    if len(set(t.dtype for t in ts if t.dtype)) > 1:
        I.err("RuntimeError", "einsum operands of different dtypes %s" % [t.dtype for t in ts])
    dev = join_device(I, ts, "einsum", strict=True)
    if not isinstance(equation, str) or any(t.shape is None for t in ts):
        return I.tensor("einsum", ts, repr(equation), None, dt, dev)
    eq = equation.replace(" ", "")
    lhs, arrow, rhs = eq.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ts):
        I.err("RuntimeError", "einsum operand count")
    env = {}
    ell = None
    for s, t in zip(ins, ts):
        shape = list(t.shape)
        if "..." in s:
            pre, _, post = s.partition("...")
            k = len(shape) - len(pre) - len(post)
            if k < 0:
                I.err("RuntimeError", "einsum: too few dims")
            e = tuple(shape[len(pre):len(pre) + k])
            ell = e if ell is None else broadcast(I, [ell, e], "einsum")
            letters = pre + post
            ds = shape[:len(pre)] + shape[len(pre) + k:]
        else:
            letters, ds = s, shape
        if len(letters) != len(ds):
            I.err("RuntimeError", "einsum: subscript %s does not match %d-d operand" % (s, len(shape)))
        for c, d in zip(letters, ds):
            if c in env:
                cur = env[c]
                if cur.is1():
                    env[c] = d
                elif not d.is1():
                    if cur.p != d.p and I.same(cur.p - d.p) is not True:
                        if cur.p.is_const() and d.p.is_const():
                            I.err("RuntimeError", "einsum size mismatch for %s" % c)
                        I.ev("dim_mismatch", a=cur, b=d, op="einsum", proven=I.same(cur.p - d.p) is False, k=c,
                             shapes=tuple(x.shape for x in ts))
                        I.clash(cur.p, d.p, "einsum")
                    elif cur.lab != d.lab and sorted(map(repr, cur.lab)) == sorted(map(repr, d.lab)):
                        I.ev("axis_order", a=cur.lab, b=d.lab, op="einsum")
            else:
                env[c] = d
    if not arrow:
        cnt = {}
        for s in ins:
            for c in s.replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
        rhs = ("..." if ell else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    pre, e, post = rhs.partition("...")
    out = [env[c] for c in pre] + (list(ell or ()) if e else []) + [env[c] for c in post]
    contracted = [env[c] for c in env if c not in rhs]
    I.ev("axis_op", op="einsum", cat="contract", dims=tuple(contracted), node=I.nd(ts[0]), eq=eq,
         letters=tuple(c for c in env if c not in rhs))
    # canonical letters
    ren = {}
    for c in lhs.replace(",", "").replace(".", ""):
        ren.setdefault(c, "abcdefghijklmnop"[len(ren)])
    ceq = "".join(ren.get(c, c) for c in lhs) + "->" + "".join(ren.get(c, c) for c in rhs)
    return I.tensor("einsum", ts, ceq, tuple(out), dt, dev)


@op("cross linalg.cross", "input other dim")
def _cross(I, input, other, dim=-1):
    a, b = T(I, input), T(I, other)
    sh = broadcast(I, [a.shape, b.shape], "cross")
    return I.tensor("cross", (a, b), None, sh, promote(a.dtype, b.dtype), join_device(I, [a, b], "cross"))


@op("linalg.solve", "A B")
def _solve(I, A, B, left=True):
    a, b = T(I, A), T(I, B)
    dev = join_device(I, [a, b], "solve", strict=True)
    if a.dtype and b.dtype and a.dtype != b.dtype:
        I.err("RuntimeError", "linalg.solve dtype mismatch")
    if a.shape is not None and b.shape is not None:
        ok = I.same(a.shape[-1].p - b.shape[-2].p) if len(b.shape) > 1 else I.same(a.shape[-1].p - b.shape[-1].p)
        if ok is not True:
            I.ev("dim_mismatch", a=a.shape[-1], b=b.shape[-2] if len(b.shape) > 1 else b.shape[-1], op="solve",
                 proven=ok is False, k=-1, shapes=(a.shape, b.shape))
        sh = b.shape
        if len(a.shape) > 2 and len(b.shape) >= 2:
            sh = broadcast(I, [a.shape[:-2], b.shape[:-2]], "solve") + b.shape[-2:]
    else:
        sh = None
    return I.tensor("solve", (a, b), None, sh, b.dtype, dev)


@op("linalg.inv inverse linalg.pinv", "A")
def _inv(I, A):
    a = T(I, A)
    return I.tensor("inv", (a,), None, a.shape, a.dtype, a.device)


@op("searchsorted", "sorted_sequence input")
def _ss(I, sorted_sequence, input, right=False, side=None, **kw):
    a, b = T(I, sorted_sequence), T(I, input)
    dev = join_device(I, [a, b], "searchsorted")
    return I.tensor("searchsorted", (a, b), repr(right), b.shape, "i64", dev)


@op("bucketize", "input boundaries")
def _bucketize(I, input, boundaries, right=False, **kw):
    a, b = T(I, input), T(I, boundaries)
    dev = join_device(I, [a, b], "bucketize")
    return I.tensor("bucketize", (a, b), repr(right), a.shape, "i64", dev)


_sorted = sorted


def literal_items(n):
    """Elements of a vector computed from literals alone (list of Poly), else None."""
    if n.op == "const" and isinstance(n.attr, tuple) and n.shape and len(n.shape) == 1 and all(isinstance(x, Poly) for x in n.attr):
        return list(n.attr)
    if n.op == "arange" and isinstance(n.attr, tuple) and n.shape and n.shape[0].p.cval() is not None and n.shape[0].p.cval() <= 256 \
            and n.attr[0] is not None and n.attr[1] is not None:
        return [topoly(n.attr[0]) + topoly(n.attr[1]) * k for k in range(int(n.shape[0].p.cval()))]
    if n.op == "cast" and n.dtype in ("f64", "f32"):
        return literal_items(n.args[0])
    if n.op in ("add", "sub", "mul", "div", "floordiv") and len(n.args) == 2:
        vs = [a.attr if a.op == "num" else literal_items(a) for a in n.args]
        if any(v is None for v in vs) or all(isinstance(v, Poly) for v in vs):
            return None
        m = max(len(v) for v in vs if not isinstance(v, Poly))
        vs = [[v] * m if isinstance(v, Poly) else v for v in vs]
        if len(vs[0]) != len(vs[1]):
            return None
        f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
             "floordiv": A.idiv}[n.op]
        try:
            return [f(a, b) for a, b in zip(*vs)]
        except (A.Blowup, ZeroDivisionError):
            return None
    return None


@op("unique unique_consecutive", "input sorted return_inverse return_counts dim")
def _unique(I, input, sorted=True, return_inverse=False, return_counts=False, dim=None):
    t = T(I, input)
    items = literal_items(I.nd(t))
    if items and dim is None and not return_inverse and not return_counts and all(p.cval() is not None for p in items):
        items = tuple(Poly.const(c) for c in _sorted({p.cval() for p in items}))
        return I.tensor("const", (), items, (Dim(len(items)),), t.dtype, t.device)
    cnt = Poly.atom(("intfn", "nunique", I.nd(t)))
    I.ev("axis_op", op="unique", cat="sort", dims=tuple(t.shape or ()), node=I.nd(t), all=True)
    if t.shape is not None and dim is None:
        tot = Poly.const(1)
        for d in t.shape:
            tot = tot * d.p
        I.facts.add_ge0(tot - cnt)
        if I.facts.entails_ge0(tot - 1):
            I.facts.add_ge0(cnt - 1)
    u = I.tensor("unique", (t,), None, (Dim(cnt),), t.dtype, t.device)
    out = [u]
    if return_inverse:
        out.append(I.tensor("unique_inv", (t,), None, t.shape, "i64", t.device))
    if return_counts:
        out.append(I.tensor("unique_cnt", (t,), None, (Dim(cnt),), "i64", t.device))
    return u if len(out) == 1 else tuple(out)


@op("argwhere nonzero", "input")
def _argwhere(I, input, as_tuple=False):
    t = T(I, input)
    cnt = Poly.atom(("intfn", "nnz", I.nd(t)))
    if as_tuple:
        return _where(I, t)
    if t.dtype == "bool":
        from .torchmodel import literal_mask
        hit = literal_mask(I, t)
        if hit is not t:
            rows = tuple((p,) for p in I.nd(hit).attr)
            return I.tensor("const", (), rows, (Dim(len(rows)), Dim(1)), "i64", t.device)
    I.ev("axis_op", op="argwhere", cat="argwhere", dims=tuple(t.shape or ()), node=I.nd(t))
    return I.tensor("argwhere", (t,), None, (Dim(cnt), Dim(len(t.shape) if t.shape is not None else 1)), "i64",
                    t.device)


@op("tril triu", "input diagonal")
def _tri(I, input, diagonal=0):
    t = T(I, input)
    return I.tensor("tri", (t,), repr(diagonal), t.shape, t.dtype, t.device)


# -- signal ----------------------------------------------------------------------------

def fft_op(name, in_complex, out_complex):
    def f(I, input, n=None, dim=-1, norm=None):
        t = T(I, input)
        dt = t.dtype
        if name in ("rfft", "ihfft") and dt is not None and is_complex(dt):
            I.err("RuntimeError", "rfft of complex tensor")
        dt = to_complex(dt) if out_complex else to_real(to_complex(dt))
        k = norm_dim(I, t.shape, dim) if t.shape is not None else None
        if k is None:
            return I.tensor(name, (t,), (None if n is None else I.num(n), repr(dim), norm), None, dt, t.device)
        N = t.shape[k].p
        p = None
        if n is not None:
            p = num_of(n)
            if p is None:
                p = Poly.atom(("s", I.freshname("nfft")))
        if name == "rfft":
            m = A.idiv(p if p is not None else N, Poly.const(2)) + 1
            I.ev("fft", which=name, n=p, dim=N)
        elif name == "irfft":
            m = p if p is not None else 2 * (N - 1)
            I.ev("fft", which=name, n=p, dim=N, out=m)
        else:
            m = p if p is not None else N
        I.ev("axis_op", op=name, cat="fft", dims=(t.shape[k],), node=I.nd(t))
        dims = tuple(Dim(m) if j == k else d for j, d in enumerate(t.shape))
        return I.tensor(name, (t,), (p, k - len(t.shape), norm, N if name == "rfft" else None), dims, dt, t.device)
    for nm in ("fft." + name,):
        OPS[nm] = f
        SIG[nm] = ["input", "n", "dim", "norm"]


fft_op("rfft", False, True)
fft_op("irfft", True, False)
fft_op("fft", True, True)
fft_op("ifft", True, True)
fft_op("hfft", True, False)
fft_op("ihfft", False, True)
for _nm in ("fft.fftshift", "fft.ifftshift"):
    def _shift(I, input, dim=None, _nm=_nm):
        return scan(I, _nm.split(".")[1], input, dim, cat="reorder")
    OPS[_nm] = _shift
    SIG[_nm] = ["input", "dim"]


def _freqs(name):
    def f(I, n, d=1, dtype=None, device=None, **kw):
        p = num_of(n)
        dt = dtype_arg(I, dtype, "f32")
        dev = device_arg(I, device, "cpu")
        if p is None:
            return I.tensor(name, (n, d), None, (Dim(Poly.atom(("s", I.freshname("nf")))),), dt, dev)
        m = A.idiv(p, Poly.const(2)) + 1 if name == "rfftfreq" else p
        return I.tensor(name, (n, d), None, (Dim(m),), dt, dev)
    OPS["fft." + name] = f
    SIG["fft." + name] = ["n", "d"]


_freqs("rfftfreq")
_freqs("fftfreq")


@op("stft", "input n_fft hop_length win_length window center pad_mode normalized onesided return_complex")
def _stft(I, input, n_fft, hop_length=None, win_length=None, window=None, center=True, pad_mode="reflect",
          normalized=False, onesided=None, return_complex=None, **kw):
    t = T(I, input)
    if t.shape is not None and len(t.shape) > 2:
        I.err("RuntimeError", "stft expects 1D or 2D input")
    if return_complex is not True and t.dtype and not str(t.dtype).startswith("c") and not isinstance(return_complex, (Cond, Top)):
        I.err("RuntimeError", "stft of a real input needs return_complex")
    nf = num_of(n_fft)
    hop = num_of(hop_length) if hop_length is not None else (None if nf is None else A.idiv(nf, Poly.const(4)))
    if isinstance(window, Tensor):
        join_device(I, [t, window], "stft", strict=True)
        if window.shape is not None and nf is not None and len(window.shape) == 1:
            if win_length is None and I.same(window.shape[0].p - nf) is not True:
                I.ev("dim_mismatch", a=window.shape[0], b=Dim(nf), op="stft-window", proven=False, k=0,
                     shapes=(t.shape, window.shape))
        if window.dtype and t.dtype and window.dtype != t.dtype:
            I.ev("dtype_mix", op="stft", dtypes=(t.dtype, window.dtype))
    c = I.truth(center) if not isinstance(center, bool) else center
    one = True if onesided is None else (onesided if isinstance(onesided, bool) else I.truth(onesided))
    sh = None
    if t.shape is not None and nf is not None and hop is not None:
        N = t.shape[-1].p
        if c:
            N2 = N + 2 * A.idiv(nf, Poly.const(2))
        else:
            N2 = N
        nt = A.idiv(N2 - nf, hop) + 1
        freq = A.idiv(nf, Poly.const(2)) + 1 if one else nf
        sh = t.shape[:-1] + (Dim(freq), Dim(nt))
        I.ev("axis_op", op="stft", cat="fft", dims=(t.shape[-1],), node=I.nd(t))
    nz = normalized if isinstance(normalized, bool) else I.truth(normalized)
    dt = to_complex(t.dtype)
    args = (t,) + ((window,) if isinstance(window, Tensor) else ())
    return I.tensor("stft", args, (nf, hop, c, nz, one, isinstance(window, Tensor)), sh, dt, t.device)


def pair2(v):
    if isinstance(v, (tuple, PyList)):
        items = list(v.items if isinstance(v, PyList) else v)
        return [num_of(x) for x in items]
    return [num_of(v)] * 2


@op("nn.functional.unfold", "input kernel_size dilation padding stride")
def _im2col(I, input, kernel_size, dilation=1, padding=0, stride=1):
    t = T(I, input)
    k, d, p, s = pair2(kernel_size), pair2(dilation), pair2(padding), pair2(stride)
    if t.shape is None or any(len(q) != 2 or None in q for q in (k, d, p, s)):
        return I.tensor("im2col", (t,), None, None, t.dtype, t.device)
    if len(t.shape) not in (3, 4):
        I.err("RuntimeError", "unfold needs a 3- or 4-d input")
    C = t.shape[-3].p
    L = []
    for j in (0, 1):
        L.append(A.idiv(t.shape[-2 + j].p + 2 * p[j] - d[j] * (k[j] - 1) - 1, s[j]) + 1)
        if not (k[j] == Poly.const(1)):
            I.ev("axis_op", op="im2col", cat="window", dims=(t.shape[-2 + j],), node=I.nd(t))
    I.ev("conv", size=L[0] * L[1])
    dims = t.shape[:-3] + (Dim(C * k[0] * k[1], tuple(x for x in (C, k[0] * k[1]) if x.cval() != 1)), Dim(L[0] * L[1]))
    return I.tensor("im2col", (t,), (tuple(k), tuple(d), tuple(p), tuple(s)), dims, t.dtype, t.device)


@op("nn.functional.pad", "input pad mode value")
def _pad(I, input, pad, mode="constant", value=None):
    t = T(I, input)
    items = I.tolist(pad)
    if items is None or t.shape is None:
        return I.tensor("pad", (t,), None, None, t.dtype, t.device)
    ps = [numnode(I, x) if isinstance(x, Tensor) else num_of(x) for x in items]
    if any(p is None for p in ps):
        return I.tensor("pad", (t,), None, None, t.dtype, t.device)
    dims = list(t.shape)
    for j in range(len(ps) // 2):
        k = len(dims) - 1 - j
        if k < 0:
            I.err("RuntimeError", "pad: too many dims")
        a, b = ps[2 * j], ps[2 * j + 1]
        if not (a.is_zero() and b.is_zero()):
            dims[k] = Dim(dims[k].p + a + b)
            I.ev("axis_op", op="pad", cat="pad", dims=(t.shape[k],), node=I.nd(t))
    vp = num_of(value) if value is not None else Poly.const(0)
    return I.tensor("pad", (t,), (tuple(ps), mode, vp), tuple(dims), t.dtype, t.device)


@op("nn.functional.interpolate", "input size scale_factor mode align_corners")
def _interp(I, input, size=None, scale_factor=None, mode="nearest", align_corners=None, **kw):
    t = T(I, input)
    if t.shape is None:
        return I.tensor("interpolate", (t,), None, None, t.dtype, t.device)
    if len(t.shape) < 3:
        I.err("NotImplementedError", "interpolate needs at least 3 dims")
    m = mode if isinstance(mode, str) else None
    need = {"linear": 3, "bilinear": 4, "bicubic": 4, "trilinear": 5}.get(m)
    if need is not None and len(t.shape) != need:
        I.err("NotImplementedError", "interpolate mode %s on %d-d input" % (m, len(t.shape)))
    sz = I.tolist(size) if isinstance(size, (tuple, PyList)) else ([size] if size is not None else None)
    dims = list(t.shape[:2])
    for j in range(2, len(t.shape)):
        if sz is not None:
            p = num_of(sz[(j - 2) if len(sz) > 1 else 0])
            dims.append(Dim(p if p is not None else Poly.atom(("s", I.freshname("isz")))))
        else:
            dims.append(Dim(Poly.atom(("s", I.freshname("isz")))))
        I.ev("axis_op", op="interpolate", cat="interp", dims=(t.shape[j],), node=I.nd(t))
    if sz is not None and all(d.p == e.p for d, e in zip(dims, t.shape)):
        pass
    return I.tensor("interpolate", (t,), (m, tuple(d.p for d in dims[2:]), repr(align_corners)), tuple(dims), t.dtype,
                    t.device)


@op("nn.functional.conv1d", "input weight bias stride padding dilation groups")
def _conv1d(I, input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    t, w = T(I, input), T(I, weight)
    dev = join_device(I, [t, w] + ([bias] if isinstance(bias, Tensor) else []), "conv1d", strict=True)
    if t.dtype and w.dtype and t.dtype != w.dtype:
        I.err("RuntimeError", "conv1d: input dtype %s and weight dtype %s" % (t.dtype, w.dtype))
    sh = None
    s, p, d, g = num_of(stride), num_of(padding), num_of(dilation), num_of(groups)
    if t.shape is not None and w.shape is not None and None not in (s, p, d, g):
        cin = t.shape[-2].p
        if I.same(cin - w.shape[1].p * g) is not True:
            I.ev("dim_mismatch", a=t.shape[-2], b=w.shape[1], op="conv1d", proven=False, k=1,
                 shapes=(t.shape, w.shape))
            I.clash(t.shape[-2].p, w.shape[1].p * g, "conv1d")
        L = A.idiv(t.shape[-1].p + 2 * p - d * (w.shape[2].p - 1) - 1, s) + 1
        I.ev("conv", size=L)
        sh = t.shape[:-2] + (w.shape[0], Dim(L))
        I.ev("axis_op", op="conv1d", cat="conv", dims=(t.shape[-1],), node=I.nd(t))
        if g != t.shape[-2].p:
            I.ev("axis_op", op="conv1d", cat="contract", dims=(t.shape[-2],), node=I.nd(t))
    return I.tensor("conv1d", (t, w) + ((bias,) if isinstance(bias, Tensor) else ()), (s, p, d, g), sh, t.dtype, dev)


def _nnfn(name):
    def f(I, input, *args, **kw):
        t = T(I, input)
        ts = [v for v in list(args) + list(kw.values()) if isinstance(v, Tensor)]
        key = tuple(repr(v) for v in args if not isinstance(v, Tensor)) + tuple(
            (k, repr(kw[k])) for k in sorted(kw) if not isinstance(kw[k], Tensor))
        if name == "dropout":
            I.ev("rng", op=name, dropout=True)
            key += (I.freshname("drop"),)
        return I.tensor("nnfn", (t,) + tuple(ts), (name,) + key, t.shape, t.dtype, t.device)
    return f


for _n in ("nn.functional.group_norm", "nn.functional.layer_norm", "nn.functional.dropout", "nn.functional.softmax", "softmax",
           "nn.functional.normalize"):
    OPS[_n] = _nnfn(_n.split(".")[-1])
    SIG[_n] = ["input"]


# -- factories -----------------------------------------------------------------------------

def factory(I, opn, dims, value, dtype, device, dt0="f32"):
    sh = None
    if dims is not None and not any(d is None for d in dims):
        sh = tuple(Dim(d) for d in dims)
    dt = dtype_arg(I, dtype, dt0)
    dev = device_arg(I, device, "cpu")
    return I.tensor("fill", (value,), None if sh is None else tuple(d.p for d in sh), sh, dt, dev)


for _n, _v in (("zeros", 0), ("ones", 1), ("empty", 0)):
    def _fz(I, size=(), dtype=None, device=None, _v=_v, requires_grad=False, **kw):
        if "shape" in kw:
            size = [kw["shape"]]
        return factory(I, _n, sizes_arg(I, size), _v, dtype, device)
    OPS[_n] = _fz
    SIG[_n] = ["*size"]


@op("full", "size fill_value")
def _full(I, size, fill_value, dtype=None, device=None, **kw):
    dt0 = scal_dtype(fill_value) if is_scalar(fill_value) else (fill_value.dtype if isinstance(fill_value, Tensor)
                                                                else None)
    return factory(I, "full", sizes_arg(I, size if isinstance(size, (tuple, PyList)) else [size]), fill_value, dtype,
                   device, dt0)


for _n, _v in (("zeros_like", 0), ("ones_like", 1), ("empty_like", 0), ("full_like", None), ("rand_like", "r"),
               ("randn_like", "r")):
    def _like(I, input, fill_value=None, dtype=None, device=None, _v=_v, **kw):
        t = T(I, input)
        dt = dtype_arg(I, dtype, t.dtype)
        dev = device_arg(I, device, t.device)
        if _v == "r":
            I.ev("rng", op="rand_like")
            return I.tensor("random", (), I.freshname("rng"), t.shape, dt, dev, unique=True)
        v = fill_value if _v is None else _v
        return I.tensor("fill", (v,), None if t.shape is None else tuple(d.p for d in t.shape), t.shape, dt, dev)
    OPS[_n] = _like
    SIG[_n] = ["input", "fill_value"] if _v is None else ["input"]


for _n, _v in (("new_zeros", 0), ("new_ones", 1), ("new_empty", 0)):
    def _newz(I, input, size=(), dtype=None, device=None, _v=_v, **kw):
        return factory(I, "new", sizes_arg(I, size), _v, dtype, device if device is not None else input, input.dtype)
    OPS[_n] = _newz
    SIG[_n] = ["input", "*size"]


@op("new_full", "input size fill_value")
def _newfull(I, input, size, fill_value, dtype=None, device=None):
    return factory(I, "new", sizes_arg(I, size if isinstance(size, (tuple, PyList)) else [size]), fill_value, dtype,
                   device if device is not None else input, input.dtype)


@op("new_tensor", "input data")
def _newtensor(I, input, data, dtype=None, device=None):
    r = as_array(I, data, dtype_arg(I, dtype))
    return Tensor(Storage(), I.nd(r), r.shape, r.dtype, device_arg(I, device, input.device))


@op("arange", "start end step")
def _arange(I, start=0, end=None, step=1, dtype=None, device=None, **kw):
    if end is None:
        start, end = 0, start
    a, b, s = [numnode(I, x) if isinstance(x, Tensor) else num_of(x) for x in (start, end, step)]
    dev = device_arg(I, device, "cpu")
    kinds = [scal_dtype(x) if is_scalar(x) else getattr(x, "dtype", None) for x in (start, end, step)]
    dt = dtype_arg(I, dtype, None)
    if dt is None:
        dt = "f32" if any(k is None or CAT[k] >= 2 for k in kinds) else "i64"
    if a is None or b is None or s is None or s.is_zero():
        return I.tensor("arange", (start, end, step), None, (Dim(Poly.atom(("s", I.freshname("ar")))),), dt, dev)
    n = A.ceil((b - a) / s)
    if s.cval() not in (None, 1) and A.is_int(b - a) and s.cval().denominator == 1 and s.cval() > 0:
        n = A.idiv(b - a + s - 1, s)
    elif s.cval() is None and A.is_int(b - a) and A.is_int(s):
        q = (b - a) / s
        n = q if A.is_int(q) else A.idiv(b - a + s - 1, s)
    if A.has_item(n):
        I.facts.add_ge0(n)      # torch refuses bounds in the wrong order
    return I.tensor("arange", (start, step), (a, s, b), (Dim(n),), dt, dev)


for _n in ("linspace", "logspace"):
    def _lin(I, start, end, steps, dtype=None, device=None, _n=_n, **kw):
        p = num_of(steps) if not isinstance(steps, Tensor) else numnode(I, steps)
        dt = dtype_arg(I, dtype, "f32")
        dev = device_arg(I, device, "cpu")
        return I.tensor(_n, (start, end), p if p is not None else "?",
                        (Dim(p if p is not None else Poly.atom(("s", I.freshname("ls")))),), dt, dev)
    OPS[_n] = _lin
    SIG[_n] = ["start", "end", "steps"]


@op("eye", "n m")
def _eye(I, n, m=None, dtype=None, device=None, **kw):
    p = num_of(n)
    q = num_of(m) if m is not None else p
    return I.tensor("eye", (), (p, q), None if p is None else (Dim(p), Dim(q)), dtype_arg(I, dtype, "f32"),
                    device_arg(I, device, "cpu"))


for _n in "rand randn".split():
    def _rand(I, size=(), dtype=None, device=None, _n=_n, generator=None, **kw):
        if "size" in kw:
            size = kw["size"]
        sz = sizes_arg(I, size)
        I.ev("rng", op=_n, generator=generator is not None)
        return I.tensor("random", (), I.freshname(_n), None if sz is None or None in sz else tuple(Dim(s) for s in sz),
                        dtype_arg(I, dtype, "f32"), device_arg(I, device, "cpu"), unique=True)
    OPS[_n] = _rand
    SIG[_n] = ["*size"]


@op("randint", "low high size")
def _randint(I, low=0, high=None, size=None, dtype=None, device=None, generator=None, **kw):
    if size is None and high is not None and isinstance(high, (tuple, PyList)):
        low, high, size = 0, low, high
    if high is None:
        low, high = 0, low
    sz = sizes_arg(I, size if isinstance(size, (tuple, PyList)) else [size]) if size is not None else []
    I.ev("rng", op="randint", generator=generator is not None)
    lo = num_of(low) if not isinstance(low, Tensor) else numnode(I, low)
    hi = num_of(high) if not isinstance(high, Tensor) else numnode(I, high)
    if isinstance(low, Tensor) and lo is None:
        lo = Poly.atom(("item", I.nd(low)))
    if isinstance(high, Tensor) and hi is None:
        hi = Poly.atom(("item", I.nd(high)))
    I.ev("randint", low=lo, high=hi, shape=sz)
    sh = None if sz is None or None in sz else tuple(Dim(s) for s in sz)
    return I.tensor("randint", (), (I.freshname("ri"), lo, hi), sh, dtype_arg(I, dtype, "i64"),
                    device_arg(I, device, "cpu"), unique=True)


@op("randperm", "n")
def _randperm(I, n, dtype=None, device=None, generator=None, **kw):
    p = num_of(n)
    I.ev("rng", op="randperm", generator=generator is not None)
    return I.tensor("randperm", (), (I.freshname("rp"), p), (Dim(p if p is not None else Poly.atom(
        ("s", I.freshname("rp")))),), "i64", device_arg(I, device, "cpu"), unique=True)


@op("multinomial", "input num_samples replacement")
def _multinomial(I, input, num_samples, replacement=False, generator=None):
    t = T(I, input)
    p = num_of(num_samples)
    I.ev("rng", op="multinomial", generator=generator is not None)
    return I.tensor("random", (t,), (repr(replacement), I.freshname("mn")), None if t.shape is None or p is None else
                    t.shape[:-1] + (Dim(p),), "i64", t.device, unique=True)


for _n in ("normal", "bernoulli", "poisson"):
    def _normal(I, mean, std=None, size=None, _n=_n, **kw):
        I.ev("rng", op=_n, generator=kw.get("generator") is not None)
        t = mean if isinstance(mean, Tensor) else (std if isinstance(std, Tensor) else None)
        par = tuple(I.asnode(a) for a in (mean, std) if a is not None)
        sh = t.shape if t is not None else None
        if t is None and size is not None:
            sz = sizes_arg(I, I.tolist(size))
            sh = None if sz is None or None in sz else tuple(Dim(s) for s in sz)
        return I.tensor("random", par, (_n, I.freshname("n")), sh, "f32", t.device if t is not None else "cpu", unique=True)
    OPS[_n] = _normal
    SIG[_n] = ["mean", "std", "size"]


for _n in "hann_window hamming_window blackman_window bartlett_window kaiser_window".split():
    def _win(I, window_length, periodic=True, dtype=None, device=None, _n=_n, **kw):
        p = num_of(window_length)
        if isinstance(window_length, Num) and window_length.kind == "float":
            I.ev("float_size", value=p)
        per = periodic if isinstance(periodic, bool) else repr(periodic)
        return I.tensor("window", (), (_n, p, per), (Dim(p if p is not None else Poly.atom(
            ("s", I.freshname("wl")))),), dtype_arg(I, dtype, "f32"), device_arg(I, device, "cpu"))
    OPS[_n] = _win
    SIG[_n] = ["window_length", "periodic"]


@op("tensor as_tensor asarray from_numpy", "data")
def _tensor(I, data, dtype=None, device=None, requires_grad=False, _copy=True, **kw):
    dt = dtype_arg(I, dtype, None)
    if isinstance(data, Tensor):
        r = data
        if dtype is not None:
            r = cast(I, r, dt)
        if device is not None:
            r = to_device(I, r, device_arg(I, device))
        return r
    if isinstance(data, (Top, AStr)):
        return I.tensor("top", tuple(I.deps(data)), "tensor(unknown)", None, dt, device_arg(I, device, "cpu"))
    if data is None or isinstance(data, (Obj, PyDict, str)):
        I.err("TypeError", "torch.tensor of %r" % (data,))
    r = as_array(I, data, dt)
    if isinstance(data, (PyList, tuple)):
        # gradients do not flow through torch.tensor([...tensors...])
        if any(isinstance(x, Tensor) for x in I.tolist(data) or []):
            I.nd(r).memo["nograd"] = True
            I.ev("detach", node=I.nd(r), how="torch.tensor(list of tensors)")
    if is_scalar(data) and I.deps(data):
        I.nd(r).memo["nograd"] = True
        I.ev("detach", node=I.nd(r), how="torch.tensor(item)")
    dev = device_arg(I, device, "cpu")
    if dev != r.device:
        n = I.node(I.nd(r).op, I.nd(r).args, I.nd(r).attr, r.shape, r.dtype, dev)
        return Tensor(Storage(), I.nd(r), r.shape, r.dtype, dev)
    return r


def _tensor_copy(I, data, **kw):
    if isinstance(data, Tensor):
        I.ev("detach", node=I.nd(data), how="torch.tensor(tensor)")
        r = _tensor(I, data, **kw)
        return Tensor(Storage(), I.node("detach", (I.nd(r),), None, r.shape, r.dtype, r.device), r.shape, r.dtype,
                      r.device)
    return _tensor(I, data, **kw)


OPS["tensor"] = _tensor_copy


@op("Tensor FloatTensor", "data")
def _Tensor(I, data=None, **kw):
    if isinstance(data, (int, Num)):
        return factory(I, "empty", [num_of(data)], 0, None, None)
    if isinstance(data, Tensor):
        return cast(I, data, "f32")
    return _tensor(I, data, dtype=Ext("torch.float32"))


@op("is_tensor", "obj")
def _ist(I, obj):
    if isinstance(obj, Top):
        return Cond("opaque", ("is_tensor", oid(obj)))
    return isinstance(obj, Tensor)


for _n in "is_complex is_floating_point".split():
    def _isc(I, input, _n=_n):
        t = T(I, input)
        if t.dtype is None:
            return Cond("opaque", (_n, I.nd(t).uid))
        return is_complex(t.dtype) if _n == "is_complex" else CAT[t.dtype] == 2
    OPS[_n] = _isc
    SIG[_n] = ["input"]


@op("numel", "input")
def _numel(I, input):
    t = T(I, input)
    if t.shape is None:
        return Num(Poly.atom(("numel", I.nd(t))), "int")
    from .interp import mknum
    return mknum(prod([d.p for d in t.shape]), "int")


@op("allclose equal", "input other")
def _allclose(I, input, other, **kw):
    return Cond("opaque", ("allclose", I.nd(T(I, input)).uid, I.nd(T(I, other)).uid), False,
                [I.nd(T(I, input)), I.nd(T(I, other))])


@op("broadcast_tensors", "*tensors")
def _bt(I, tensors=()):
    ts = [T(I, x) for x in tensors]
    sh = broadcast(I, [t.shape for t in ts], "broadcast_tensors")
    if sh is None:
        return tuple(ts)
    return tuple(I.viewof(t, "expand", tuple(d.p for d in sh), sh) for t in ts)


@op("histc", "input bins min max")
def _histc(I, input, bins=100, min=0, max=0):
    p = num_of(bins)
    t = T(I, input)
    return I.tensor("histc", (t,), None, (Dim(p),) if p is not None else None, t.dtype, t.device)
