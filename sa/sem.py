"""Pointwise denotation of value-graph nodes: node x index -> value number (GVN modulo the field axioms).

`Sem.val(node, idx)` is the value number of element `idx` (a tuple of index normal forms) of the tensor the node denotes.
Views, reshapes, slices, concatenations, partial updates and broadcasts are resolved on indices; reductions become
weighted sums over symbolic points of the reduced range (a linear functional, so linearity and exchange of sums hold);
transforms along an axis are uninterpreted linear functionals; everything else is uninterpreted.
"""
from __future__ import annotations

from fractions import Fraction as Fr

from . import algebra as A
from . import field as F
from .algebra import Poly, topoly
from .values import Node, Tensor, Num

EMPTY = frozenset()


class Val:
    __slots__ = ("re", "im", "taint", "deps", "nn", "pw", "S")

    def __init__(self, re, im=None, taint=False, deps=EMPTY, nn=False):
        self.re, self.im, self.taint, self.deps = re, im, taint, deps
        self.nn = nn    # known to be real and non-negative
        self.pw = None  # ((None, v0), (p1, v1), ...): v_j where p_j >= 0 > p_(j+1)

    def full(self):
        return self.re + (self.im or F.ZERO)

    def key(self):
        return (self.re, self.im)


def union(vals):
    d = EMPTY
    for v in vals:
        if v.deps:
            d = d | v.deps if d else v.deps
    return d


def lift(*vals):
    return any(v.taint for v in vals), union(vals)


def vconst(c):
    return Val(F.const(c), nn=c >= 0)


ZERO, ONE = Val(F.ZERO, nn=True), Val(F.ONE, nn=True)


def strip(v):
    return Val(v.re, v.im, v.taint, v.deps, v.nn) if v.pw else v


def summed(v):
    """The value of a sum: pieces over the summed index mean nothing outside."""
    if not v.pw:
        return v
    if any(str(a).startswith("q") and ":" in str(a) for p, _ in v.pw[1:] for a in p.deep_syms()):
        return strip(v)
    r = strip(v)
    r.pw, r.S = tuple((p, summed(x)) for p, x in v.pw), v.S
    return r


def pieces(vs):
    """At most how many pieces do the values have together, those of nested pieces included?"""
    n = 1
    for v in vs:
        if v.pw:
            n *= sum(pieces((x,)) for _, x in v.pw)
    return n


def lifted(f):
    """f on values given piecewise over an index: applied to every piece."""
    def g(a, *b):
        p = a.pw
        S = a.S if p else None
        for x in b:
            if isinstance(x, Val) and x.pw:
                p, S = x.pw, x.S
        if p:
            k = sum(isinstance(x, Val) for x in b)
            h = g if pieces((a,) + b[:k]) <= 200 else f
            r = S.merged((a,) + b[:k], lambda *vs: h(*vs, *b[k:]))
            if r is not None:
                return r
        return f(a, *b)
    return g


@lifted
def vadd(a, b):
    t, d = lift(a, b)
    if a.im is None and b.im is None:
        return Val(F.add(a.re, b.re), None, t, d, a.nn and b.nn)
    return Val(F.add(a.re, b.re), F.add(a.im or F.ZERO, b.im or F.ZERO), t, d)


@lifted
def vneg(a):
    return Val(F.neg(a.re), None if a.im is None else F.neg(a.im), a.taint, a.deps)


def vsub(a, b):
    return vadd(a, vneg(b))


@lifted
def vmul(a, b):
    t, d = lift(a, b)
    if a.im is None and b.im is None:
        return Val(F.mul(a.re, b.re), None, t, d, a.nn and b.nn or a.re == b.re)
    if b.im is None:
        return Val(F.mul(a.re, b.re), F.mul(a.im, b.re), t, d)
    if a.im is None:
        return Val(F.mul(a.re, b.re), F.mul(a.re, b.im), t, d)
    return Val(F.sub(F.mul(a.re, b.re), F.mul(a.im, b.im)), F.add(F.mul(a.re, b.im), F.mul(a.im, b.re)), t, d,
               a.re == b.re and a.im == F.neg(b.im))


@lifted
def vconj(a):
    return Val(a.re, None if a.im is None else F.neg(a.im), a.taint, a.deps)


@lifted
def vinv(a):
    if a.im is None:
        return Val(F.inv(a.re), None, a.taint, a.deps, a.nn)
    n = F.inv(F.add(F.mul(a.re, a.re), F.mul(a.im, a.im)))
    return Val(F.mul(a.re, n), F.neg(F.mul(a.im, n)), a.taint, a.deps)


def vdiv(a, b):
    return vmul(a, vinv(b))


@lifted
def vpow(a, e):
    e = Fr(e)
    if a.im is None:
        return Val(F.powq(a.re, e), None, a.taint, a.deps, a.nn or e.denominator % 2 == 0 or e.numerator % 2 == 0)
    if e.denominator == 1:
        n = abs(int(e))
        r, b = ONE, a
        while n:
            if n & 1:
                r = vmul(r, b)
            b = vmul(b, b)
            n >>= 1
        r = Val(r.re, r.im, a.taint, a.deps)
        return vinv(r) if e < 0 else r
    return opaque("cpow", (e,), [a], cplx=True)


def opaque(name, attr, vals, cplx=False, pos=False):
    t, d = lift(*vals)
    k = (name, attr) + tuple(v.key() for v in vals)
    re = F.hpos(*k) if pos else F.h(*k)
    return Val(re, F.h("im", *k) if cplx else None, t, d)


@lifted
def floordiv(a, b):
    r = opaque("idiv", None, [a, b])
    F.INTS.update(r.re)
    F.INTS.update(F.neg(r.re))
    return r


@lifted
def vabs(a):
    if a.nn:
        return Val(a.re, None, a.taint, a.deps, True)
    if a.im is None or a.im == F.ZERO:
        return Val(F.absv(a.re), None, a.taint, a.deps, True)
    return Val(F.powq(F.add(F.mul(a.re, a.re), F.mul(a.im, a.im)), Fr(1, 2)), None, a.taint, a.deps, True)


def vfn(name, a):
    return _vfn(a, name)


@lifted
def _vfn(a, name):
    """Uninterpreted unary function; exp, sqrt and abs know about complex arguments."""
    if a.im is not None and a.im != F.ZERO:
        if name == "exp":
            m = F.fn("exp", a.re)
            return Val(F.mul(m, F.fn("cos", a.im)), F.mul(m, F.fn("sin", a.im)), a.taint, a.deps)
        if name == "abs":
            return vabs(a)
        return opaque("c:" + name, None, [a], cplx=True)
    if name == "abs":
        return vabs(a)
    r = F.fn(name, a.re)
    return Val(r, F.ZERO if a.im is not None else None, a.taint, a.deps, name in ("exp", "sqrt", "cosh"))


@lifted
def cond_gt(a, b):
    """0/1 value of a > b."""
    d = vsub(a, b)
    if d.im is not None:
        d = Val(d.re, None, d.taint, d.deps)
    if d.re == F.ZERO:
        return Val(F.ZERO, None, d.taint, d.deps)
    return Val(tuple(F.h1("gt", x) for x in d.re), None, d.taint, d.deps)


@lifted
def cond_eq(a, b):
    d = vsub(a, b)
    if d.full() == F.ZERO + F.ZERO:
        return Val(F.ONE, None, d.taint, d.deps)
    return Val(tuple(F.h1("eq", x) for x in F.canon(d.re)[0]), None, d.taint, d.deps)


def vnot(u):
    return vsub(ONE, u)


def vand(u, v):
    if u.key() == ZERO.key() or v.key() == ONE.key() or u.key() == v.key():
        return u
    if v.key() == ZERO.key() or u.key() == ONE.key():
        return v
    if u.pw and v.pw:
        r = u.S.merged((u, v), vmul)
        if r is not None:
            return r
    return vmul(u, v)


def vite(u, a, b):
    if u.pw and u.key() not in (ONE.key(), ZERO.key()):
        r = u.S.merged((u, a, b), _ite)
        if r is not None:
            return r
    return _ite(u, a, b)


def _ite(u, a, b):
    if u.key() == ONE.key():
        return a
    if u.key() == ZERO.key():
        return b
    if a.key() == b.key():
        return a
    r = vadd(vmul(u, a), vmul(vnot(u), b))
    r.nn = a.nn and b.nn
    return r


@lifted
def vmax(a, b):
    t, d = lift(a, b)
    return Val(tuple(x if x == y else F.h1("max", min(x, y), max(x, y)) for x, y in zip(a.re, b.re)), None, t, d, a.nn or b.nn)


def vmin(a, b):
    # min(a,b) = a + b - max(a,b)
    return vsub(vadd(a, b), vmax(a, b))


_INTS = {}


def position(v):
    """Index normal form of an integer value."""
    if not _INTS:
        _INTS.update((F.const(k), k) for k in range(2048))
    k = _INTS.get(v.re) if v.im is None and not v.taint else None
    return Poly.atom(("intfn", "fpv", FpKey(v))) if k is None else Poly.const(k)


class Sem:
    def __init__(self, I, pos=(), facts=()):
        self.I = I
        self.pos = set(pos)
        self.facts = I.facts.copy()
        for f in facts:
            self.facts.add_ge0(f)
        self.memo = {}
        self.pmemo = {}
        self.gmemo = {}
        self.ones = {}
        self.unknown = {}
        self.depth = 0
        self.eqs = {}
        self.reps = {}
        self.settled = False
        self.solve_equalities()
        self.memo, self.pmemo, self.gmemo, self.settled = {}, {}, {}, True
        for p in list(self.facts.facts):
            if A.has_item(p):
                self.facts.add_ge0(self.norm(p))

    def solve_equalities(self):
        """Sizes the path proves equal get one representative: x with x == p is read as p."""
        self.infeasible = False
        for _ in range(4):
            fs = [self.norm(p) for p in self.facts.facts]
            known = set(fs)
            grew = False
            for p in fs:
                p = self.norm(p)
                if len(p.t) < 2 or -p not in known:
                    continue
                grew = self.solve(p) or grew
            if not grew:
                break
        if self.eqs:
            for p in self.facts.facts:
                c = self.norm(p).cval()
                if c is not None and c < 0:
                    self.infeasible = True
        for p in self.facts.neq:
            if self.norm(p).is_zero():
                self.infeasible = True

    def check_conditions(self):
        """Is one truth value taken twice on the path, once each way (or one that is constant, the wrong way)?"""
        seen = {}
        for _, c, r in self.I.decisions:
            if c.kind in ("ge", "gt", "eq"):
                if not any(a[0] != "s" for a in topoly(c.p).atoms()):
                    continue
                v = self.ceq(c.p) if c.kind == "eq" else self.cge(c.p) if c.kind == "ge" else vnot(self.cge(-topoly(c.p)))
            elif c.kind == "opaque" and isinstance(c.p, tuple) and c.p[0] == "t" and len(c.deps) == 1:
                n = next(iter(c.deps))
                if getattr(n, "uid", None) != c.p[1] or n.dtype != "bool":
                    continue
                v = self.lam(n)
            else:
                continue
            if v.taint:
                continue
            r = r != c.neg
            for k, t in (((v.re, v.im), r), ((vnot(v).re, vnot(v).im), not r)):
                if seen.setdefault(k, t) != t:
                    self.infeasible = True
            if v.key() in (ONE.key(), ZERO.key()) and (v.key() == ONE.key()) != r:
                self.infeasible = True

    def solve(self, p):
        for m, c in sorted(p.t.items(), key=repr):
            if len(m) != 1 or m[0][1] != 1 or m[0][0][0] not in ("s", "trunc", "idiv", "ceil"):
                continue
            at = m[0][0]
            rest = p - Poly({m: c})
            val = rest * (-1 / c)
            if any(k.denominator != 1 for k in val.t.values()) or at == ("s", "pi"):
                continue
            if at[0] == "s" and at[1] in rest.deep_syms() or at in rest.atoms():
                continue
            if val.subst(lambda a, at=at: Poly.const(0) if a == at else None) != val:
                continue
            sub = lambda a, at=at, val=val: val if a == at else None
            self.eqs = {k: v.subst(sub) for k, v in self.eqs.items()}
            self.eqs[at] = val
            return True
        return False

    def norm(self, p):
        if not p.t:
            return p
        if self.settled and A.has_item(p):
            return p.subst(self.representative)
        return p.subst(self.eqs.get) if self.eqs else p

    def representative(self, a):
        """Equal elements of tensors have one name."""
        r = self.eqs.get(a)
        if r is not None or a[0] != "item" and (a[0] != "intfn" or a[1] not in ("item", "nnz")):
            return r
        if a[1] == "nnz":
            v = self.lam(a[-1])
            b = a if v.taint else self.reps.setdefault(("nnz", v.key(), tuple(self.norm(d.p) for d in a[-1].shape)), a)
            return None if b is a else Poly.atom(b)
        v = self.val(a[-1], ())
        if v.taint or v.pw:
            return None
        for k, z in ((0, ZERO), (1, ONE)):
            if v.key() == z.key():
                return Poly.const(k)
        b = self.reps.setdefault((a[0], v.key()), a)
        return None if b is a else Poly.atom(b)

    def bound(self, name, p):
        """Evaluation with the index symbol `name` of an abstract sequence bound to p."""
        p = self.norm(topoly(p))
        key = ("bound", name, p)
        r = self.memo.get(key)
        if r is None:
            r = object.__new__(type(self))
            r.__dict__.update(self.__dict__)
            at = ("s", name)
            sub = lambda a: p if a == at else None
            r.eqs = {k: v.subst(sub) for k, v in self.eqs.items()}
            r.eqs[at] = p
            r.memo, r.pmemo, r.gmemo, r.reps = {}, {}, {}, {}
            self.memo[key] = r
        return r

    # -- indices -----------------------------------------------------------
    def atom(self, name, n=None):
        p = A.declare(name, integer=True, lo=0, pos=False)
        if n is not None:
            f = self.norm(topoly(n)) - 1 - p
            if not any(f == g for g in self.facts.facts):
                self.facts.add_ge0(f)
        return p

    def free(self, shape, tag="i"):
        return tuple(Poly.const(0) if self.one(d) else self.atom("%s%d:%s" % (tag, k - len(shape), A.show(self.norm(d.p))), d.p)
                     for k, d in enumerate(shape))

    def one(self, d):
        """Is this axis known to have length one on the path being analysed?"""
        if d.is1():
            return True
        if d.p.cval() is not None:
            return False
        r = self.ones.get(d.p)
        if r is None:
            r = self.ones[d.p] = self.I.same(d.p - 1) is True
        return r

    def ge0(self, p):
        p = self.norm(topoly(p))
        c = p.cval()
        if c is not None:
            return c >= 0
        if p in self.gmemo:
            return self.gmemo[p]
        r = None
        if self.facts.entails_ge0(p):
            r = True
        elif self.facts.entails_ge0(-p - 1):
            r = False
        self.gmemo[p] = r
        return r

    def cge(self, p):
        """0/1 value of the index condition p >= 0."""
        g = self.ge0(p)
        if g is not None:
            return ONE if g else ZERO
        p = self.norm(topoly(p))
        if self.falling(p):
            return vnot(self.cge(-p - 1))
        r = vnot(cond_gt(self.num(-p), ZERO))
        r.pw, r.S = ((None, ZERO), (p, ONE)), self
        return r

    @staticmethod
    def falling(p):
        """Does the condition p >= 0 bound its index from above?  (Fixes one form for a condition and its negation.)"""
        lead = None
        for m, c in p.t.items():
            if not m:
                continue
            index = any(a[0] == "s" and ":" in str(a[1]) for a, e in m)
            k = (not index, repr(m))
            if lead is None or k < lead[0]:
                lead = (k, c)
        return lead is not None and lead[1] < 0

    def ceq(self, p):
        p = topoly(p)
        if p.is_zero():
            return ONE
        if p.cval() is not None or self.ge0(p - 1) or self.ge0(-p - 1):
            return ZERO
        r = cond_eq(self.num(p), ZERO)
        if self.ge0(p) and self.ge0(-p):
            return ONE
        p = self.norm(p)
        if self.falling(p):
            p = -p
        r.S = self
        if len(p.t) <= 12:
            if self.ge0(p):
                r.pw = ((None, ONE), (p - 1, ZERO))
            elif self.ge0(-p):
                r.pw = ((None, ZERO), (p, ONE))
            else:
                r.pw = ((None, ZERO), (p, ONE), (p - 1, ZERO))
        return r

    def order(self, ps):
        """Thresholds sorted by when they are reached (p >= 0), equal ones dropped; None if undecided."""
        out = []
        for p in ps:
            k = len(out)
            while k:
                d = out[k - 1] - p          # >= 0: out[k-1] is reached no later than p
                if not d.t:
                    break
                if self.ge0(d):
                    break
                if not self.ge0(-d):
                    return None
                k -= 1
            if k and not (out[k - 1] - p).t:
                continue
            out.insert(k, p)
        return out

    def merged(self, vs, f):
        """f applied piece by piece to values given piecewise over one index expression (others are constant in it)."""
        ps = None
        live = []
        for k, v in enumerate(vs):
            if v.pw:
                mine = [p for p, _ in v.pw[1:]]
                q = mine if ps is None else self.order(ps + mine)
                if q is not None:
                    ps = q
                    live.append(k)
        if ps is None or len(ps) > 24:
            return None
        cur = [v.pw[0][1] if k in live else v for k, v in enumerate(vs)]
        out = [(None, f(*cur))]
        for p in ps:
            for k in live:
                for q, x in vs[k].pw[1:]:
                    if not (q - p).t:
                        cur[k] = x
            x = f(*cur)
            if x.key() == out[-1][1].key():
                continue
            if self.ge0(-p - 1):            # never reached
                break
            if self.ge0(p):                 # always reached
                out = [(None, x)]
                continue
            out.append((p, x))
        return self.piecewise(out)

    def piecewise(self, pw):
        r = pw[0][1]
        if len(pw) == 1:
            return r
        nn = all(v.nn for _, v in pw)
        r = ZERO
        for cut, c in self.steps(pw, {}).items():
            for p in cut:
                c = vmul(vsub(ONE, strip(cond_gt(self.num(-p), ZERO))), c)
            r = vadd(r, c)
        r = Val(r.re, r.im, r.taint, r.deps, nn)
        r.pw, r.S = tuple(pw), self
        return r

    def steps(self, pw, memo):
        """Coefficients of the steps [p >= 0] of a nested piecewise value; a step implied by another is absorbed by it,
        so that equal functions have equal coefficients however their pieces were nested."""
        out, last = {}, {}
        for p, v in pw:
            k = id(v)
            if k not in memo:
                memo[k] = (self.steps(v.pw, memo) if v.pw else {(): strip(v)}, v)
            cur = memo[k][0]
            for sign, cs in ((1, cur), (-1, last)):
                for cut, c in cs.items():
                    q = cut if p is None else self.absorb(cut, p)
                    if sign < 0:
                        c = vneg(c)
                    out[q] = vadd(out[q], c) if q in out else c
            last = cur
        return {q: c for q, c in out.items() if c.taint or c.key() != ZERO.key()} or {(): ZERO}

    def absorb(self, cut, p):
        if any(self.ge0(p - q) for q in cut):       # q >= 0 implies p >= 0
            return cut
        keep = [q for q in cut if not self.ge0(q - p)]
        return tuple(sorted(keep + [p], key=repr))

    # -- numbers -----------------------------------------------------------
    def num(self, p):
        p = topoly(p)
        r = self.pmemo.get(p)
        if r is None and self.eqs:
            q = self.norm(p)
            if q != p:
                r = self.pmemo[p] = self.num(q)
        if r is None:
            r = ZERO
            for m, c in p.t.items():
                v = vconst(c)
                for a, e in m:
                    v = vmul(v, vpow(self.atomval(a), e))
                r = vadd(r, v)
            self.pmemo[p] = r
        return r

    def atomval(self, a):
        if a == A.I_ATOM:
            return Val(F.ZERO, F.ONE)
        k = a[0]
        if k == "s":
            d = A.SYM.get(a[1])
            return Val(F.hpos("s", a[1]), nn=True) if d and d["pos"] else Val(F.h("s", a[1]))
        if k == "c":
            return Val(F.const(a[1]))
        if k == "p":
            return self.num(a[1])
        if k == "fpv":
            return a[1]
        if k == "item":
            return self.val(a[1], ())
        if k == "intfn" and a[1] == "fpv":
            return a[2].v
        if k == "intfn" and a[1] == "item":
            return self.val(a[2], ())
        if k in ("intfn", "fn") and a[1] == "elem" and isinstance(a[2], Node):
            return self.val(a[2], (topoly(a[3]),))
        if k == "fn" and len(a) == 3 and isinstance(a[2], Poly):
            return vfn(a[1], self.num(a[2]))
        if k in ("idiv", "trunc", "ceil"):
            vs = [self.num(x) for x in a[1:]]
            if k == "ceil":
                return vneg(floordiv(vneg(vs[0]), ONE))
            if k == "idiv":
                return floordiv(vs[0], vs[1])
            return vfn("trunc", vs[0])
        vs, at = [], []
        for x in a[1:]:
            if isinstance(x, Poly):
                vs.append(self.num(x))
            elif isinstance(x, Node):
                vs.append(self.lam(x))
            else:
                at.append(repr(x))
        return opaque(k, tuple(at), vs)

    # -- tensors -----------------------------------------------------------
    def lam(self, n, fixed=None):
        """Value number of a whole tensor as a function of its index (generic element)."""
        if n.shape is None:
            v = self.val(n, None)
            return v
        idx = list(self.free(n.shape, "g"))
        if fixed:
            for k, p in fixed.items():
                idx[k] = p
        return self.val(n, tuple(idx))

    def val(self, n, idx):
        if isinstance(n, Tensor):
            n = self.I.nd(n)
        if idx is not None:
            idx = tuple(self.norm(i) for i in idx)
        key = (n.uid, idx)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.depth += 1
        if self.depth > 3000:
            raise RecursionError("value graph too deep")
        try:
            if idx is not None and n.shape is not None and len(idx) == len(n.shape):
                idx = tuple(Poly.const(0) if self.one(d) else i for i, d in zip(idx, n.shape))
            f = SEM.get(n.op)
            r = None
            if f is not None and (idx is not None or n.op in ("num",)):
                r = f(self, n, idx)
            if r is None:
                r = self.fallback(n, idx)
        finally:
            self.depth -= 1
        if r.pw:
            r = self.owned(r, {a for i in idx or () for a in i.atoms()})
        if r.pw:
            r = self.single(r, n, idx)
        self.memo[key] = r
        return r

    def owned(self, v, own):
        """The value with the pieces that are about the element's own index and sizes, not about an index summed over."""
        if not v.pw:
            return v
        if not all(a in own for p, _ in v.pw[1:] for a in p.atoms() if a[0] == "s" and ":" in str(a[1])):
            return strip(v)
        pw = tuple((p, self.owned(x, own)) for p, x in v.pw)
        if all(x is y for (_, x), (_, y) in zip(pw, v.pw)):
            return v
        r = strip(v)
        r.pw, r.S = pw, self
        return r

    def single(self, r, n, idx):
        """Pieces that consist of one index are read at that index."""
        pw, changed = list(r.pw), False
        for k in range(len(pw)):
            p = pw[k][0]
            q = pw[k + 1][0] if k + 1 < len(pw) else None
            if p is None:
                if not self.ge0(q + 1):
                    continue
                p = q + 1
            elif q is None:
                if not self.ge0(-p):
                    continue
            elif (p - q).cval() != 1:
                continue
            at = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1
                  and any(m[0][0] in i.atoms() for i in idx)]
            for a, c in at:
                rest = p - Poly.atom(a) * Poly.const(c)
                if a in rest.atoms():
                    continue
                to = rest * Poly.const(-c)
                idx2 = tuple(i.subst(lambda x: to if x == a else None) for i in idx)
                if idx2 != idx:
                    v = self.val(n, idx2)
                    if v.pw is None and v.key() != pw[k][1].key():
                        pw[k] = (pw[k][0], v)
                        changed = True
                    break
        return self.piecewise(pw) if changed else r

    def fallback(self, n, idx):
        self.unknown[n.op] = self.unknown.get(n.op, 0) + 1
        vs = [self.lam(a) if isinstance(a, Node) else vconst(0) for a in n.args]
        iv = [self.num(i) for i in idx] if idx is not None else []
        r = opaque("op:" + n.op, stable(n.attr), vs + iv, cplx=bool(n.dtype and n.dtype.startswith("c")))
        if n.op == "top" or idx is None:
            r = Val(r.re, r.im, True, r.deps)
        return r

    def arg(self, n, k, idx):
        """Element of operand k of a broadcasting operation at output index idx."""
        a = n.args[k]
        if a.op == "num":
            return self.num(a.attr)
        if a.shape is None:
            return self.val(a, None)
        m = len(a.shape)
        return self.val(a, tuple(idx[len(idx) - m:]) if m else ())

    def points(self, d, tag="q"):
        """Symbolic points of the range [0, d) with weights summing to d (exact for small constant ranges)."""
        p = self.norm(topoly(d.p if hasattr(d, "p") else d))
        c = p.cval()
        if c is not None and c <= 16:
            return [(Poly.const(i), ONE) for i in range(int(c))]
        k = A.show(p)
        t = [self.atom("%s%d:%s" % (tag, j, k), p) for j in range(2)]
        w = Val(F.h("w", tag, k), nn=True)
        w2 = vsub(self.num(p), w)
        w2.nn = True
        return [(t[0], w), (t[1], w2)]

    def ival(self, n, idx):
        """Index normal form of an integer tensor element."""
        p = self.ipoly(n, idx)
        if p is not None:
            return p
        v = self.val(n, idx)
        p = position(v)
        if n.op == "clamp" and isinstance(n.attr, tuple):
            for w, a in zip(n.attr, n.args[1:]):
                f = self.norm(a.attr) if a.op == "num" and A.is_int(a.attr) else None
                f = None if f is None else p - f if w == "min" else f - p
                if f is not None and not any(f == g for g in self.facts.facts):
                    self.facts.add_ge0(f)
                    self.gmemo.clear()
        return p

    def rank(self, mask, idx):
        """Position among the selected elements of the element of a mask at idx."""
        v = self.lam(mask)
        return None if v.taint else Poly.atom(("intfn", "rank", FpKey(v)) + tuple(topoly(i) for i in idx))

    def nonzero(self, mask, k):
        """Index of the k-th selected element of a mask."""
        v = self.lam(mask)
        if v.taint:
            return None
        f, k = FpKey(v), topoly(k)
        for a in k.atoms():
            if a[:3] == ("intfn", "rank", f) and k == Poly.atom(a):
                return a[3:]
        return tuple(Poly.const(0) if self.one(d) else Poly.atom(("intfn", "nz", f, Poly.const(q), k))
                     for q, d in enumerate(mask.shape))

    def read_at(self, n, idx, read):
        """read(p) at the index value p of an integer tensor element, piece by piece where that is piecewise."""
        v = self.val(n, idx) if self.ipoly(n, idx) is None else None
        if v is None or not v.pw:
            return read(self.ival(n, idx))
        out = []
        for p, x in v.pw:
            u = read(position(strip(x)))
            if not out or u.key() != out[-1][1].key():
                out.append((p, u))
        return self.piecewise(out)

    def ipoly(self, n, idx):
        op = n.op
        if op == "num":
            return n.attr if A.is_int(n.attr) else None
        if idx is None or n.shape is None:
            return None
        if op == "arange" and isinstance(n.attr, tuple) and len(n.attr) == 3:
            a, step = n.attr[0], n.attr[1]
            if a is not None and step is not None:
                return topoly(a) + topoly(step) * idx[0]
        if op in ("add", "sub", "mul") and n.dtype in ("i64", "i32", "i16", "i8"):
            ps = []
            for a in n.args:
                m = 0 if a.shape is None else len(a.shape)
                ps.append(self.ipoly(a, idx[len(idx) - m:] if m else ()))
            if None in ps:
                if op == "add" and any(x is not None for x in ps):
                    k = 0 if ps[0] is None else 1
                    a = n.args[k]
                    m = len(a.shape) if a.shape is not None else 0
                    return self.ival(a, idx[len(idx) - m:] if m else ()) + ps[1 - k]
                return None
            return ps[0] + ps[1] if op == "add" else ps[0] - ps[1] if op == "sub" else ps[0] * ps[1]
        if op == "cast" and n.dtype in ("i64", "i32"):
            return self.ipoly(n.args[0], idx)
        if op == "stack":
            d, rel = n.attr, isinstance(n.attr, tuple)
            if rel and d[0] != "abs" or not rel and not isinstance(d, int):
                return None
            k = len(idx) + d[1] if rel else len(idx) + d if d < 0 else d
            rest = idx[:k] + idx[k + 1:]
            if rel:
                return self.bound(d[3], idx[k]).ipoly(n.args[0], rest)
            c = self.norm(topoly(idx[k])).cval()
            return None if c is None else self.ipoly(n.args[int(c)], rest)
        r = self.route(n, idx)
        if r is not None:
            return self.ipoly(*r)
        if op in ("randint", "randperm"):
            return self.draw(n, idx)
        if op == "const" and len(n.shape) == 1 and idx[0].cval() is not None:
            x = n.attr[int(idx[0].cval())]
            return x if isinstance(x, Poly) and A.is_int(x) else None
        return None

    def draw(self, n, idx):
        """Element of a bounded random-integer tensor as a symbol with its bounds."""
        a = n.attr
        lo, hi = (a[1], a[2]) if n.op == "randint" else (0, a[1])
        if lo is None or hi is None:
            return None
        lo, hi = topoly(lo), topoly(hi)
        span = "%x" % (F.h(*[self.num(x).key() for x in (lo, hi)])[0] & 0xffffffff)
        name = "%s<%s>[%s]" % (a[0], span, ",".join(A.show(self.norm(i)) for i in idx))
        if lo.is_zero():
            return self.atom(name, hi)
        p = A.declare(name, integer=True)
        for f in (p - lo, hi - 1 - p):
            if not any(f == g for g in self.facts.facts):
                self.facts.add_ge0(f)
        return p

    # -- pure re-indexings -------------------------------------------------------
    def route(self, n, idx):
        """(source node, source index) when the element is a copy of one source element, else None."""
        f = ROUTE.get(n.op)
        if f is None or n.shape is None or n.args[0].shape is None:
            return None
        j = f(self, n, idx)
        return None if j is None else (n.args[0], tuple(j))


class FpKey:
    """Hashable carrier of a value number inside an index atom."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v.key())

    def __eq__(self, o):
        return isinstance(o, FpKey) and o.v.key() == self.v.key()

    def __repr__(self):
        return "fp%x" % (self.v.re[0] % 0xffffff)

    def __lt__(self, o):
        return self.v.re < o.v.re


def stable(attr):
    """Attribute key without creation counters."""
    if isinstance(attr, tuple):
        return tuple(stable(a) for a in attr)
    if isinstance(attr, Poly):
        return A.show(attr)
    if isinstance(attr, Node):
        return "node"
    return repr(attr)


SEM = {}
ROUTE = {}
from . import semops  # noqa: E402,F401
