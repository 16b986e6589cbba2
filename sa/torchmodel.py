"""Transfer functions for torch / numpy / builtins (dispatch + tensor core)."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import algebra as A
from .algebra import Poly, topoly, declare
from .values import *
from .shapes import *

# ---------------------------------------------------------------------------
# device / dtype arguments
# ---------------------------------------------------------------------------


def dtype_arg(I, v, default=None):
    if v is None:
        return default
    if isinstance(v, Ext):
        n = v.name.split(":")[-1].split(".")[-1]
        if v.name == "dtype:None":
            return None
        return DT.get(n, None)
    if isinstance(v, str):
        return DT.get(v.split(".")[-1])
    return None


def dtype_val(d):
    return Ext("dtype:None") if d is None else Ext("torch." + DTNAME[d])


def device_arg(I, v, default="cpu"):
    if v is None:
        return default
    if isinstance(v, Ext) and v.name.startswith("device:"):
        n = v.name[7:]
        return None if n == "None" else n
    if isinstance(v, str):
        return v if v == "cpu" else ("D" if v in ("cuda",) else v)
    if isinstance(v, Tensor):
        return v.device
    return None


def device_val(d):
    return Ext("device:%s" % d)


def join_device(I, ts, what, strict=False):
    """Device of an op over tensors ts; reports mixing of placements."""
    devs = [(t.device, t) for t in ts if isinstance(t, Tensor)]
    known = [(d, t) for d, t in devs if d is not None]
    main = None
    for d, t in known:
        zero = (not strict) and t.shape is not None and len(t.shape) == 0 and d == "cpu"
        if zero:
            continue
        if main is None:
            main = d
        elif d != main:
            if t.shape is None or any(x.shape is None for _, x in known):
                continue
            I.ev("device_mix", op=what, devices=tuple(x for x, _ in known), tensors=tuple(I.nd(x) for _, x in known))
            return "D"
    if main is None:
        main = known[0][0] if known else ("cpu" if not devs else None)
        if any(d is None for d, _ in devs):
            return None
    return main


# ---------------------------------------------------------------------------
# element-wise core
# ---------------------------------------------------------------------------

def is_scalar(v):
    return isinstance(v, (bool, int, Num, Cond, complex))


def numnode(I, t):
    """Poly of a tensor that is a pure literal scalar, else None."""
    if isinstance(t, Tensor):
        n = I.nd(t)
        if t.shape == ():
            return scalar_poly(n)
        return None
    if isinstance(t, (bool, int)):
        return Poly.const(int(t))
    if isinstance(t, Num):
        return t.p
    return None


def scalar_poly(n):
    """Literal value of a 0-d node: a number, an element of a literal vector, or +-*/ of such."""
    if n.op == "num":
        return n.attr
    if n.op == "index":
        return literal_at(n, ())
    return None


def literal_at(n, ks):
    """Element of a tensor of literals at literal indices, else None."""
    if n.op == "num":
        return n.attr
    if n.op == "fill" and n.args:
        return scalar_poly(n.args[0])
    if n.op == "const" and isinstance(n.attr, tuple) and n.attr and n.attr[0] != "empty":
        v = n.attr
        for k in ks:
            if not isinstance(v, tuple) or not -len(v) <= k < len(v):
                return None
            v = v[k]
        return v if isinstance(v, Poly) else None
    if n.op == "index" and len(n.args) == 1 and isinstance(n.attr, tuple) and n.shape is not None and len(ks) == len(n.shape):
        src, out, q = n.args[0], [], 0
        for kk in n.attr:
            if kk[0] == "none":
                q += 1
                continue
            if kk[0] == "int":
                p = topoly(kk[1])
            elif kk[0] == "all" and q < len(ks):
                p, q = Poly.const(ks[q]), q + 1
            elif kk[0] == "slice" and kk[1] != "?" and q < len(ks):
                p, q = topoly(kk[1]) + topoly(kk[3]) * ks[q], q + 1
            else:
                return None
            if p.cval() is None:
                return None
            out.append(int(p.cval()))
        return literal_at(src, tuple(out) + tuple(ks[q:]))
    return None


FOLD2 = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
         "div": lambda a, b: a / b}


def pair(v):
    if isinstance(v, Tensor):
        return (v.dtype, 2 if (v.shape is None or len(v.shape)) else 1)
    return (scal_dtype(v), 0)


def as_tensor_operand(I, v):
    return v


def ew(I, op, args, dtype="promote", attr=None):
    """Generic elementwise operation over tensors / scalars (broadcasting)."""
    for a in args:
        if isinstance(a, (PyList, PyDict, str, tuple, Obj, SliceV)) or a is None:
            I.err("TypeError", "%s: unsupported operand %r" % (op, tname_(a)))
    ts = [a for a in args if isinstance(a, Tensor)]
    tops = [a for a in args if isinstance(a, (Top, AStr))]
    shapes = [t.shape for t in ts]
    if tops:
        shape = None
        dt = None
    else:
        shape = broadcast(I, shapes, op)
        dt = result_dtype([pair(a) for a in args])
    if dtype == "promote":
        pass
    elif dtype == "float":
        dt = to_float(dt)
    elif dtype == "bool":
        dt = "bool"
    elif dtype == "real":
        dt = to_real(dt)
    else:
        dt = dtype
    dev = join_device(I, ts, op)
    if tops and dev is None:
        dev = None
    ps = [numnode(I, a) for a in args]
    if attr is None and all(p is not None for p in ps) and shape == ():
        r = None
        if op in FOLD2 and len(ps) == 2:
            try:
                r = FOLD2[op](*ps)
            except A.Blowup:
                r = None
        elif op == "neg":
            r = -ps[0]
        elif op == "pow" and ps[1].cval() is not None and abs(ps[1].cval()) < 20:
            r = A.ppow(ps[0], ps[1].cval())
        elif op == "sqrt":
            r = A.ppow(ps[0], Fr(1, 2))
        elif op == "pow" and ps[1].cval() is None:
            r = Poly.atom(("fn", "pow", ps[0], ps[1]))
        elif op in ("sin", "cos", "exp", "log", "tan", "abs", "atan", "asin", "acos", "log2", "log10"):
            r = A.fn_atom(op, ps[0])
        elif op == "ceil":
            r = A.ceil(ps[0])
        elif op == "floor":
            r = A.idiv(ps[0], Poly.const(1))
        if r is not None:
            return I.tensor("num", (), r, (), dt, dev)
    return I.tensor(op, args, attr, shape, dt, dev)


def tname_(v):
    from .interp import tname
    return tname(v)


BIN = {"add": ("add", "promote"), "sub": ("sub", "promote"), "mul": ("mul", "promote"), "truediv": ("div", "float"),
       "pow": ("pow", "promote"), "floordiv": ("floordiv", "promote"), "mod": ("mod", "promote"),
       "and": ("and", "promote"), "or": ("or", "promote"), "xor": ("xor", "promote"),
       "lshift": ("lshift", "promote"), "rshift": ("rshift", "promote")}


def binop(I, op, a, b):
    if op == "matmul":
        return OPS["matmul"](I, a, b)
    for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
        if isinstance(x, Obj) and x.cls is not None:
            c, f = x.cls.lookup(nm % op)
            if f is not None:
                return I.call(Bound(f, x), [y], {})
    name, rule = BIN[op]
    a, b = listop(I, a), listop(I, b)
    return ew(I, name, [a, b], rule)


def listop(I, v):
    # numpy arrays accept lists as operands; torch does not
    return v


def compare(I, op, a, b):
    return ew(I, op.lower(), [a, b], "bool")


def inplace_binop(I, op, cur, val):
    if op == "matmul":
        return I.binop(op, cur, val)
    r = binop(I, op, cur, val)
    return store_into(I, cur, r, op + "=", val)


def store_into(I, cur, r, what, extra=None):
    """cur[...] = r, in place, with shape/dtype legality."""
    if not isinstance(r, Tensor):
        n = I.node("fill", (I.asnode(r),), None, cur.shape, cur.dtype, cur.device)
        I.write(cur, what, n, extra)
        return cur
    if r.dtype is not None and cur.dtype is not None and what != "setitem":
        if CAT[r.dtype] > CAT[cur.dtype] and not (CAT[r.dtype] <= 2 and CAT[cur.dtype] == 2):
            I.err("RuntimeError", "in-place result type %s can't be cast to %s" % (r.dtype, cur.dtype))
    if r.shape is not None and cur.shape is not None and len(r.shape) > len(cur.shape):
        lead = r.shape[:len(r.shape) - len(cur.shape)]
        if any(not d.is1() for d in lead):
            I.err("RuntimeError", "in-place output shape mismatch")
    n = I.nd(r)
    if r.dtype != cur.dtype and r.dtype is not None:
        n = I.node("cast", (n,), cur.dtype, cur.shape, cur.dtype, cur.device)
    elif n.shape != cur.shape:
        n = I.node("expandto", (n,), cur.shape, cur.shape, cur.dtype, cur.device)
    I.write(cur, what, n, extra)
    return cur


def cast(I, t, dt):
    """Tensor dtype conversion; same dtype aliases the input as torch does."""
    if dt is None:
        r = I.tensor("cast", (t,), None, t.shape, None, t.device, roots=t.store.roots)
        r.store = t.store
        return r
    if t.dtype == dt:
        return t
    if t.dtype is None:
        # may alias: keep the storage so a later in-place write is seen
        r = I.tensor("cast", (t,), dt, t.shape, dt, t.device)
        I.ev("maybe_alias_cast", to=dt)
        r.store = t.store
        r.version = t.store.version
        return r
    if is_complex(t.dtype) and not is_complex(dt):
        I.ev("complex_discard", frm=t.dtype, to=dt)
    n = numnode(I, t)
    if n is not None and is_floatlike(dt):
        return I.tensor("num", (), n, (), dt, t.device)
    return I.tensor("cast", (t,), dt, t.shape, dt, t.device)


def to_device(I, t, dev):
    if dev == t.device:
        return t
    r = I.tensor("todev", (t,), dev, t.shape, t.dtype, dev)
    return r


# ---------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------

def num_of(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return Poly.const(v)
    if isinstance(v, Num):
        return v.p
    return None


def slice_len(I, s, d, what="slice"):
    """Length Poly of dim d sliced by s; also canonical (start, stop, step)."""
    N = d.p
    step = 1
    if s.step is not None:
        ps = num_of(s.step)
        if ps is None:
            return None, ("slice", "?", "?", "?")
        c = ps.cval()
        step = int(c) if c is not None and c.denominator == 1 else ps
        if isinstance(step, int) and step < 0:
            I.err("ValueError", "negative slice step on tensor")
    def bound(v, dflt):
        if v is None:
            return dflt, False
        if isinstance(v, Tensor):
            n = numnode(I, v)
            if n is not None:
                return n, False
            return Poly.atom(("item", I.nd(v))), None
        p = num_of(v)
        if p is None:
            return None, None
        c = p.cval()
        if c is not None:
            if c < 0:
                if N.is_const() and -c > N.cval():
                    return Poly.const(0), True
                return N + p, True
            return p, False
        if I.ge0(p):
            return p, False
        if I.ge0(-p):
            z = I.gt0(-p)
            return N + p, True if z else "maybezero"
        return p, None
    a, na = bound(s.start, Poly.const(0))
    b, nb = bound(s.stop, N)
    if a is None or b is None:
        return None, ("slice", "?", "?", step if isinstance(step, int) else show_(step))
    if na == "maybezero" or nb == "maybezero":
        I.ev("slice_zero", start=s.start, stop=s.stop, dim=N)
    # clamp
    orig_b = b
    if s.stop is not None:
        if I.ge0(b - N):
            b = N
        elif not I.ge0(N - b):
            I.ev("slice_over", stop=b, dim=N)
    if s.start is not None and not (I.ge0(a)):
        I.ev("slice_under", start=a, dim=N)
    ln = b - a
    lz = I.ge0(ln)
    if lz is not True and I.ge0(-ln):
        lz = False
    if lz is False:
        ln = Poly.const(0)
    elif lz is None:
        I.ev("slice_empty_possible", start=a, stop=b, dim=N)
    if step != 1:
        ln = A.idiv(ln + topoly(step) - 1, topoly(step))
    full = (a.is_zero() and b == N and step == 1)
    I.ev("slice", start=a, stop=b, want_stop=orig_b, dim=N, step=step, length=ln, full=full)
    return ln, ("slice", a, b, step if isinstance(step, int) else step)


def show_(p):
    return repr(p)


def expand_index(I, t, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    nspec = 0
    for i in idx:
        if i is None or i is Ellipsis or (isinstance(i, Ext) and i.name == "builtins.Ellipsis"):
            continue
        if isinstance(i, Tensor) and i.dtype == "bool" and i.shape is not None:
            nspec += len(i.shape)
        else:
            nspec += 1
    n = len(t.shape)
    if nspec > n:
        I.err("IndexError", "too many indices for %d-d tensor" % n)
    seen = False
    for i in idx:
        if i is Ellipsis or (isinstance(i, Ext) and i.name == "builtins.Ellipsis"):
            if not seen:
                out.extend([SliceV(None, None, None)] * (n - nspec))
                seen = True
        else:
            out.append(i)
    if not seen:
        out.extend([SliceV(None, None, None)] * (n - nspec))
    return out


def literal_mask(I, m):
    """Positions selected by a mask computed from literals, else the mask itself."""
    from .torchops import literal_items
    n = I.nd(m)
    f = {"eq": lambda x: x == 0, "ne": lambda x: x != 0, "lt": lambda x: x < 0, "le": lambda x: x <= 0,
         "gt": lambda x: x > 0, "ge": lambda x: x >= 0}.get(n.op)
    if f is None or len(n.args) != 2 or not m.shape or len(m.shape) != 1:
        return m
    vs = [a.attr if a.op == "num" else literal_items(a) for a in n.args]
    if any(v is None for v in vs) or all(isinstance(v, Poly) for v in vs):
        return m
    k = max(len(v) for v in vs if not isinstance(v, Poly))
    vs = [[v] * k if isinstance(v, Poly) else v for v in vs]
    if len(vs[0]) != len(vs[1]):
        return m
    ds = [(a - b).cval() for a, b in zip(*vs)]
    if any(d is None for d in ds):
        return m
    hit = tuple(Poly.const(j) for j, d in enumerate(ds) if f(d))
    return I.tensor("const", (), hit, (Dim(len(hit)),), "i64", "cpu") if hit else m


def getitem(I, t, idx, quiet=False):
    if t.shape is None:
        return I.tensor("index", (t,), ("?",), None, t.dtype, t.device)
    if isinstance(idx, Top) or (isinstance(idx, tuple) and any(isinstance(x, (Top, AStr)) for x in idx)):
        return I.tensor("index", (t, I.asnode(idx)), ("?",), None, t.dtype, t.device)
    if isinstance(idx, str) or isinstance(idx, tuple) and any(isinstance(x, str) for x in idx):
        I.err("IndexError", "string index on tensor")
    spec = expand_index(I, t, idx)
    adv = [i for i in spec if isinstance(i, (Tensor, PyList, AbsSeq)) or isinstance(i, tuple)]
    if not adv:
        shape, key = [], []
        k = 0
        for i in spec:
            if i is None:
                shape.append(Dim(1))
                key.append(("none",))
                continue
            d = t.shape[k]
            if isinstance(i, SliceV):
                ln, kk = slice_len(I, i, d)
                if kk[1] == Poly.const(0) and kk[2] == d.p and kk[3] == 1:
                    shape.append(d)
                    key.append(("all",))
                else:
                    if ln is None:
                        ln = Poly.atom(("s", I.freshname("len")))
                    if not quiet:
                        I.ev("axis_op", op="slice", cat="select", dims=(d,), node=I.nd(t))
                    shape.append(Dim(ln))
                    key.append(kk)
            else:
                p = num_of(i) if not isinstance(i, bool) else None
                if p is None:
                    if isinstance(i, bool):
                        return I.tensor("index", (t,), ("?",), None, t.dtype, t.device)
                    return I.tensor("index", (t, I.asnode(i)), ("?",), None, t.dtype, t.device)
                c = p.cval()
                if c is not None and d.p.cval() is not None:
                    if not -d.p.cval() <= c < d.p.cval():
                        I.err("IndexError", "index %s out of range for axis of size %r" % (c, d))
                I.ev("index", index=p, dim=d.p)
                if not quiet and not d.is1():
                    I.ev("axis_op", op="index", cat="select", dims=(d,), node=I.nd(t))
                key.append(("int", p))
            k += 1
        if all(x == ("all",) for x in key) and len(shape) == len(t.shape):
            pass
        return I.viewof(t, "index", tuple(key), tuple(shape))
    # advanced indexing: copy
    spec = [literal_mask(I, i) if isinstance(i, Tensor) and i.dtype == "bool" else i for i in spec]
    if len(spec) == 1 and isinstance(spec[0], Tensor) and spec[0].dtype == "i64" and len(t.shape) == 1:
        from .torchops import literal_items
        src, at = literal_items(I.nd(t)), literal_items(I.nd(spec[0]))
        if src and at is not None and all(p.cval() is not None and 0 <= p.cval() < len(src) for p in at):
            if at:
                return I.tensor("const", (), tuple(src[int(p.cval())] for p in at), (Dim(len(at)),), t.dtype, t.device)
    shape, key, nodes, extra = [], [], [I.nd(t)], []
    k = 0
    advshapes = []
    advpos = None
    for i in spec:
        if i is None:
            shape.append(Dim(1))
            key.append(("none",))
            continue
        d = t.shape[k]
        if isinstance(i, SliceV):
            ln, kk = slice_len(I, i, d)
            shape.append(d if (kk[1] == Poly.const(0) and kk[2] == d.p and kk[3] == 1) else
                         Dim(ln if ln is not None else Poly.atom(("s", I.freshname("len")))))
            key.append(kk)
            k += 1
        elif isinstance(i, (Tensor, PyList, tuple, AbsSeq)):
            it = i if isinstance(i, Tensor) else as_array(I, i)
            if advpos is None:
                advpos = len(shape)
            elif advpos < len(shape) and key and key[-1][0] != "adv":
                advpos = 0
            if it.dtype == "bool" and it.shape is not None:
                m = len(it.shape)
                for q in range(m):
                    a, b = it.shape[q], t.shape[k + q]
                    if not a.is1() and I.same(a.p - b.p) is not True:
                        I.ev("dim_mismatch", a=a, b=b, op="mask-index", proven=I.same(a.p - b.p) is False,
                             k=q, shapes=(it.shape, t.shape))
                cnt = Poly.atom(("intfn", "nnz", I.nd(it)))
                advshapes.append((Dim(cnt, (cnt,)),))
                if not quiet:
                    I.ev("axis_op", op="mask", cat="mask", dims=tuple(t.shape[k:k + m]), node=I.nd(t))
                k += m
            else:
                I.ev("adv_index", index=I.nd(it), dim=d.p, tensor=I.nd(t))
                if not quiet:
                    I.ev("axis_op", op="gather-index", cat="gather", dims=(d,), node=I.nd(t))
                advshapes.append(it.shape)
                k += 1
            nodes.append(I.nd(it))
            key.append(("adv",))
        else:
            p = num_of(i)
            key.append(("int", p))
            if advpos is None:
                advpos = len(shape)
            k += 1
    for i in spec:
        if isinstance(i, Tensor) and i.device not in (None, "cpu") and t.device not in (None, i.device):
            I.ev("device_mix", op="index", devices=(t.device, i.device), tensors=(I.nd(t), I.nd(i)))
    bs = broadcast(I, advshapes, "advanced index")
    full = None
    if bs is not None:
        full = tuple(shape[:advpos]) + tuple(bs) + tuple(shape[advpos:])
    n = I.node("gather", tuple(nodes), tuple(key), full, t.dtype, t.device)
    return Tensor(Storage(), n, full, t.dtype, t.device)


def as_array(I, v, dtype=None):
    """Python sequence -> tensor value (index lists, torch.tensor, np.array)."""
    if isinstance(v, Tensor):
        return v
    if isinstance(v, AbsSeq):
        j = I.freshname("j")
        sub = as_array(I, v.elem(A.declare(j, integer=True, lo=0, pos=False)))
        sh = None if sub.shape is None else (Dim(v.length),) + tuple(sub.shape)
        return I.tensor("absseq", (sub,), j, sh, dtype or sub.dtype, "cpu")
    if is_scalar(v):
        p = numnode(I, v)
        dt = dtype or scal_dtype(v)
        if p is not None:
            return I.tensor("num", (), p, (), dt, "cpu")
        return I.tensor("scalar", (v,), None, (), dt, "cpu")
    items = I.tolist(v)
    if items is None:
        return I.tensor("top", tuple(I.deps(v)), "array of unknown", None, dtype, "cpu")
    if not items:
        return I.tensor("const", (), ("empty",), (Dim(0),), dtype or "f32", "cpu")
    if all(isinstance(x, (int, Num)) and not isinstance(x, bool) for x in items):
        dt = dtype or ("f32" if any(isinstance(x, Num) and x.kind != "int" for x in items) else "i64")
        if any(isinstance(x, Num) and x.kind == "complex" for x in items):
            dt = dtype or "c64"
        return I.tensor("const", (), tuple(num_of(x) for x in items), (Dim(len(items)),), dt, "cpu")
    subs = [as_array(I, x) for x in items]
    dt = dtype
    if dt is None:
        dt = subs[0].dtype
        for s in subs[1:]:
            dt = promote(dt, s.dtype)
    sh = None
    if all(s.shape is not None for s in subs):
        if len(set(len(s.shape) for s in subs)) == 1:
            sh = (Dim(len(items)),) + tuple(subs[0].shape)
    dev = "cpu"
    nodes = [I.nd(s) for s in subs]
    if all(n.op == "const" for n in nodes):
        return I.tensor("const", (), tuple(n.attr for n in nodes), sh, dt, dev)
    return I.tensor("stack", tuple(nodes), 0, sh, dt, dev)


def setitem(I, t, idx, v, aug=None):
    if t.shape is None:
        n = I.node("update", (I.nd(t), I.asnode(v)), ("?",), None, t.dtype, t.device)
        I.write(t, "setitem", n, v)
        return
    sub = getitem(I, t, idx, quiet=False)
    if isinstance(v, (PyList, tuple)):
        v = as_array(I, v)
    if isinstance(v, Tensor):
        if v.dtype is not None and t.dtype is not None and is_complex(v.dtype) and not is_complex(t.dtype):
            I.ev("complex_discard", frm=v.dtype, to=t.dtype)
        if sub.shape is not None and v.shape is not None:
            sh = broadcast(I, [sub.shape, v.shape], "setitem")
        if v.device not in (None, t.device) and t.device is not None and v.shape is not None and len(v.shape) > 0:
            if "D" in (v.device, t.device):
                I.ev("device_mix", op="setitem", devices=(t.device, v.device), tensors=(I.nd(t), I.nd(v)))
    if sub.base is not None:
        if isinstance(v, Tensor):
            store_into(I, sub, v, "setitem", v)
        else:
            n = I.node("fill", (I.asnode(v),), None, sub.shape, t.dtype, t.device)
            I.write(sub, "setitem", n, v)
    else:
        n0 = I.nd(sub)
        n = I.node("index_put", (I.nd(t), I.asnode(v)) + tuple(n0.args[1:]), n0.attr, t.shape, t.dtype, t.device)
        I.write(t, "setitem", n, v)


# ---------------------------------------------------------------------------
# op table
# ---------------------------------------------------------------------------

OPS = {}
SIG = {}


def op(names, sig):
    """Register fn for names; sig: positional parameter names, '*x' swallows the rest."""
    def deco(f):
        for n in names.split():
            OPS[n] = f
            SIG[n] = sig.split()
        return f
    return deco


KWALIAS = {"axis": "dim", "keepdims": "keepdim", "a": "input", "x": "input"}


def call_op(I, name, args, kw):
    f = OPS[name]
    sig = SIG[name]
    kw = dict(kw)
    out = kw.pop("out", None)
    params = {}
    pos = list(args)
    star = None
    names = []
    for s in sig:
        if s.startswith("*"):
            star = s[1:]
            break
        names.append(s)
    for n in names:
        if pos:
            params[n] = pos.pop(0)
    if star is not None:
        params[star] = pos
        pos = []
    if pos:
        I.err("TypeError", "%s() takes %d positional arguments" % (name, len(names)))
    for k, v in kw.items():
        k2 = k
        if k not in sig and KWALIAS.get(k) in sig:
            k2 = KWALIAS[k]
        if k2 == star:
            params[k2] = [v]
            continue
        params[k2] = v
    try:
        r = f(I, **params)
    except TypeError as e:
        if "unexpected keyword" in str(e) or "missing" in str(e):
            return I.top("%s: %s" % (name, e), *(list(args) + list(kw.values())))
        raise
    if isinstance(out, Tensor) and isinstance(r, Tensor):
        store_into(I, out, r, "out=")
        return out
    return r


from . import torchops  # noqa: E402,F401  (fills OPS)
from .torchext import (  # noqa: E402
    call_ext, call_method, call_extobj, ext_init, ext_attr, extobj_attr, extobj_getitem, tensor_attr, value_attr)
