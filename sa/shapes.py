"""Shape, dtype and device domains."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import algebra as A
from .algebra import Poly, topoly
from .values import *

CAT = {"bool": 0, "u8": 1, "i8": 1, "i32": 1, "i64": 1, "f16": 2, "bf16": 2, "f32": 2, "f64": 2,
       "c64": 3, "c128": 3}
ORD = ["bool", "u8", "i8", "i32", "i64", "f16", "bf16", "f32", "f64", "c64", "c128"]

DT = {"float64": "f64", "double": "f64", "float32": "f32", "float": "f32", "float16": "f16", "half": "f16",
      "bfloat16": "bf16", "complex64": "c64", "cfloat": "c64", "complex128": "c128", "cdouble": "c128",
      "int64": "i64", "long": "i64", "int32": "i32", "int": "i32", "bool": "bool", "uint8": "u8", "int8": "i8",
      "int16": "i32", "short": "i32", "bool_": "bool", "float_": "f64", "complex": "c64"}
DTNAME = {"f64": "float64", "f32": "float32", "f16": "float16", "bf16": "bfloat16", "c64": "complex64",
          "c128": "complex128", "i64": "int64", "i32": "int32", "bool": "bool", "u8": "uint8", "i8": "int8"}


def promote(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    ca, cb = CAT[a], CAT[b]
    if ca == 3 or cb == 3:
        if "c128" in (a, b) or "f64" in (a, b):
            return "c128"
        return "c64"
    return a if ORD.index(a) >= ORD.index(b) else b


def to_float(d):
    if d is None:
        return None
    return d if CAT[d] >= 2 else "f32"


def to_real(d):
    return {"c64": "f32", "c128": "f64"}.get(d, d)


def to_complex(d):
    return {"f32": "c64", "f64": "c128", "f16": "c64", "bf16": "c64", "i64": "c64", "i32": "c64",
            "bool": "c64"}.get(d, d)


def is_complex(d):
    return d in ("c64", "c128")


def is_floatlike(d):
    return d is not None and CAT[d] >= 2


def result_dtype(ops):
    """ops: list of (dtype, prio) prio 2 dimmed tensor, 1 zero-dim tensor, 0 scalar kind."""
    if any(d is None for d, p in ops if p > 0):
        known = [d for d, p in ops if p > 0 and d is not None]
        return None
    res = {2: None, 1: None, 0: None}
    for d, p in ops:
        if d is None:
            continue
        res[p] = d if res[p] is None else promote(res[p], d)
    out = res[2]
    for p in (1, 0):
        d = res[p]
        if d is None:
            continue
        if out is None:
            out = d
        elif CAT[d] > CAT[out]:
            if p == 0 or CAT[d] == 3:
                if d in ("c64", "c128"):
                    out = to_complex(out) if CAT[out] >= 2 else ("c64" if p == 0 else d)
                    if p == 1 and d == "c128" and CAT[out] < 2:
                        out = d
                else:
                    out = "f32" if d in ("f32", "f64") and p == 0 else d
            else:
                out = d
    return out


def scal_dtype(v):
    if isinstance(v, bool) or isinstance(v, Cond):
        return "bool"
    if isinstance(v, int):
        return "i64"
    if isinstance(v, complex):
        return "c64"
    if isinstance(v, Num):
        return {"int": "i64", "float": "f32", "complex": "c64"}.get(v.kind, "f32")
    return None


def prod(ps):
    r = Poly.const(1)
    for p in ps:
        r = r * p
    return r


def _size_rank(p):
    """Order among proven-equal expressions of one size, so that the choice does not depend on operand order."""
    r = repr(p)
    return (len(r), r)


def broadcast(I, shapes, what=""):
    """Broadcast abstract shapes; report mismatching and order-mixing axes."""
    if any(s is None for s in shapes):
        return None
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        dims = []
        for s in shapes:
            j = len(s) - n + k
            if j >= 0:
                dims.append(s[j])
        cur = None
        for d in dims:
            if cur is None or cur.is1():
                if cur is None or not d.is1() or True:
                    cur = d if (cur is None or not d.is1()) else cur
                continue
            if d.is1():
                continue
            if cur.p == d.p:
                if cur.lab != d.lab:
                    if sorted(map(repr, cur.lab)) == sorted(map(repr, d.lab)):
                        I.ev("axis_order", a=cur.lab, b=d.lab, op=what)
                continue
            r = I.same(cur.p - d.p)
            if r is True:
                if d.p.is_const() or (not cur.p.is_const() and _size_rank(d.p) < _size_rank(cur.p)):
                    cur = d
                continue
            if r is False and cur.p.is_const() and d.p.is_const():
                I.err("RuntimeError", "shape mismatch %r vs %r in %s" % (cur, d, what))
            I.ev("dim_mismatch", a=cur, b=d, op=what, proven=(r is False), k=k - n, shapes=tuple(shapes))
            if r is False and all(I.ge0(x.p - 2) or I.ge0(-x.p) for x in (cur, d)) or (
                    r is not True and I.differ(cur.p, d.p, True)):
                I.err("RuntimeError", "shape mismatch %r vs %r in %s" % (cur, d, what))
            # soft: a symbolic axis meeting a concrete size
        out.append(cur)
    return tuple(out)


def mergelab(dims):
    lab = ()
    for d in dims:
        lab += d.lab
    return Dim(prod([d.p for d in dims]), lab)


def quotient(I, num, den):
    """Product(num)/Product(den) for lists of Poly, cancelling equal factors first."""
    num, den = list(num), list(den)
    for d in list(den):
        for x in num:
            if x == d or I.same(x - d) is True:
                num.remove(x)
                den.remove(d)
                break
    a, b = prod(num), prod(den)
    if b.cval() == 1:
        return a
    if b.is_zero():
        return None
    q = A.exact_div(a, b)
    return q if q is not None else a / b


def reshape_dims(I, shape, sizes):
    """New dims for reshape of `shape` into list of Poly / -1 / None(unknown)."""
    if any(s is None for s in sizes):
        return None
    if shape is None:
        if any(s == -1 for s in sizes if isinstance(s, int)):
            return None
        return tuple(Dim(topoly(s)) for s in sizes)
    prims = []
    for d in shape:
        if d.is1():
            continue
        if len(d.lab) > 1 and prod(d.lab) == d.p:
            prims.extend(d.lab)
        else:
            prims.append(d.p)
    tgt = []
    neg = None
    for i, s in enumerate(sizes):
        if isinstance(s, int) and s == -1:
            neg = i
            tgt.append(None)
        else:
            tgt.append(topoly(s))
    if neg is not None:
        q = quotient(I, prims, [t for t in tgt if t is not None and t.cval() != 1])
        if q is None:
            return None
        if any(e < 0 for m in q.t for _, e in m) or any(c.denominator != 1 for c in q.t.values()):
            tot, known = prod(prims), prod([t for t in tgt if t is not None])
            if I.differ(tot, known * A.idiv(tot, known)):
                I.err("RuntimeError", "reshape of %s elements into rows of %s" % (A.show(tot), A.show(known)))
        tgt[neg] = q
    else:
        tot = quotient(I, prims, [t for t in tgt if t.cval() != 1])
        if tot is not None and tot.cval() != 1:
            r = I.same(tot - 1)
            if r is False and tot.is_const() or r is not True and I.differ(prod(prims), prod([t for t in tgt])):
                I.err("RuntimeError", "reshape size mismatch")
            if r is not True:
                I.ev("reshape_unproven", src=shape, dst=tuple(tgt), ratio=tot)
    out = []
    i = 0
    n = len(prims)
    for t in tgt:
        if t.cval() == 1:
            out.append(Dim(t, ()))
            continue
        # exact: next primitive axes multiply to t
        acc, labs, j, ok = Poly.const(1), [], i, False
        while j < n:
            acc = acc * prims[j]
            labs.append(prims[j])
            j += 1
            if acc == t or I.same(acc - t) is True:
                ok = True
                break
        if ok:
            out.append(Dim(t, tuple(labs)))
            i = j
            continue
        # a single primitive axis being split
        if i < n:
            rest = quotient(I, [prims[i]], [t])
            later = [k for k in range(i + 1, n) if prims[k] == t]
            if later:
                I.ev("reshape_mix", src=shape, dst=tuple(tgt), took=t, order=tuple(prims))
                out.append(Dim(t))
                prims = prims[:later[0]] + prims[later[0] + 1:]
                n -= 1
                continue
            out.append(Dim(t))
            if rest is not None and all(e > 0 for m in rest.t for _, e in m):
                prims = prims[:i] + ([rest] if rest.cval() != 1 else []) + prims[i + 1:]
                n = len(prims)
            elif rest is not None and i + 1 < n:
                # crosses a primitive boundary
                if not t.is_const():
                    I.ev("reshape_mix", src=shape, dst=tuple(tgt), took=t, order=tuple(prims))
                i += 1
            else:
                i += 1
        else:
            out.append(Dim(t))
    return tuple(out)


def norm_dim(I, shape, d):
    if isinstance(d, Num):
        c = d.p.cval()
        d = None if c is None else int(c)
    if isinstance(d, bool):
        d = int(d)
    if not isinstance(d, int) or shape is None:
        return None
    n = len(shape)
    if n == 0 and d in (0, -1):
        return 0
    if d < -n or d >= n:
        I.err("IndexError", "dimension %d out of range for %d-d tensor" % (d, n))
    return d % n
