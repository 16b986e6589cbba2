"""Reference formulas as value numbers, and their comparison with what an abstract execution computed."""
from __future__ import annotations

import re
from fractions import Fraction as Fr

from . import algebra as A
from . import field as F
from . import sem as M
from .algebra import Poly, topoly
from .sem import Sem, Val
from .values import Tensor, Num, PyList, PyDict, Obj

REG = {}


def spec(prop, pattern):
    def deco(f):
        REG.setdefault(prop, []).append((re.compile(pattern), f))
        return f
    return deco


class E:
    """Expression of a reference formula."""
    __slots__ = ("v",)
    __array_priority__ = 1

    def __init__(self, v):
        self.v = v

    def __add__(self, o): return E(M.vadd(self.v, ev(o)))
    __radd__ = __add__

    def __sub__(self, o): return E(M.vsub(self.v, ev(o)))

    def __rsub__(self, o): return E(M.vsub(ev(o), self.v))

    def __mul__(self, o): return E(M.vmul(self.v, ev(o)))
    __rmul__ = __mul__

    def __truediv__(self, o): return E(M.vdiv(self.v, ev(o)))

    def __rtruediv__(self, o): return E(M.vdiv(ev(o), self.v))

    def __neg__(self): return E(M.vneg(self.v))

    def __pow__(self, e): return E(M.vpow(self.v, Fr(e) if not isinstance(e, float) else Fr(str(e))))

    @property
    def re(self): return E(Val(self.v.re, None, self.v.taint, self.v.deps, self.v.nn))

    @property
    def im(self): return E(Val(self.v.im or F.ZERO, None, self.v.taint, self.v.deps))

    @property
    def conj(self): return E(M.vconj(self.v))


def ev(x):
    if isinstance(x, E):
        return x.v
    if isinstance(x, (int, Fr)):
        return M.vconst(x)
    if isinstance(x, float):
        return M.vconst(Fr(str(x)))
    if isinstance(x, str):
        return M.vconst(Fr(x))
    if isinstance(x, Val):
        return x
    raise TypeError(x)


def fn(name):
    return lambda x: E(M.vfn(name, ev(x)))


sin, cos, tan, exp, log, asin, acos, atan, tanh, absf = [fn(n) for n in
                                                        "sin cos tan exp log asin acos atan tanh abs".split()]


def sqrt(x):
    return E(M.vpow(ev(x), Fr(1, 2)))


def trunc(x):
    return E(M.vfn("trunc", ev(x)))


def floor(x):
    return E(M.floordiv(ev(x), M.ONE))


def atan2(a, b):
    from .semops import _atan2  # noqa
    a, b = ev(a), ev(b)
    t, d = M.lift(a, b)
    out = []
    for x, y in zip(a.re, b.re):
        m = (F.P - x) % F.P
        out.append(0 if x == 0 else F.h1("atan2", x, y) if x <= m else (F.P - F.h1("atan2", m, y)) % F.P)
    return E(Val(tuple(out), None, t, d))


def gt(a, b): return E(M.cond_gt(ev(a), ev(b)))
def lt(a, b): return E(M.cond_gt(ev(b), ev(a)))
def ge(a, b): return E(M.vnot(M.cond_gt(ev(b), ev(a))))
def le(a, b): return E(M.vnot(M.cond_gt(ev(a), ev(b))))
def eq(a, b): return E(M.cond_eq(ev(a), ev(b)))
def both(a, b): return E(M.vand(ev(a), ev(b)))
def where(c, a, b): return E(M.vite(ev(c), ev(a), ev(b)))
def maximum(a, b): return E(M.vmax(ev(a), ev(b)))
def minimum(a, b): return E(M.vmin(ev(a), ev(b)))
def cplx(a, b): return E(Val(ev(a).re, ev(b).re, ev(a).taint or ev(b).taint, ev(a).deps | ev(b).deps))
def floordiv(a, b): return E(M.floordiv(ev(a), ev(b)))
def opaque(name, *xs): return E(M.opaque(name, None, [ev(x) for x in xs]))


J = E(Val(F.ZERO, F.ONE))
PI_ = None


class Spec:
    def __init__(self, e, r, pos=()):
        self.e, self.r, self.I = e, r, r.interp
        F.DIRTY.clear()
        self.S = Sem(r.interp, pos=pos)
        self.results = []

    # -- quantities ------------------------------------------------------------
    def t(self, name):
        """Argument tensor by name: s.t('x')(i, j)."""
        t = self.r.ctx.inputs[name]
        n = self.I.node("input", (), name, t.shape, t.dtype, t.device)
        S = self.S

        def at(*idx):
            ii = tuple(topoly(x) for x in idx)
            assert len(ii) == len(n.shape), (name, n.shape)
            ii = tuple(Poly.const(0) if S.one(d) else i for i, d in zip(ii, n.shape))
            return E(S.val(n, ii))
        at.shape = n.shape
        at.ndim = len(n.shape)
        at.node = n
        return at

    def has(self, name):
        return name in self.r.ctx.inputs

    def of(self, T):
        """Element accessor of an abstract tensor value."""
        S = self.S
        return lambda *idx: E(S.val(S.I.nd(T), tuple(topoly(x) for x in idx)))

    def sym(self, name):
        return E(self.S.num(Poly.atom(("s", name))))

    def P(self, name):
        return Poly.atom(("s", name))

    def N(self, name):
        """Normal form of a named size (c.named) or symbol."""
        v = self.r.ctx.inputs.get("#" + name)
        return topoly(v.p if isinstance(v, Num) else v) if v is not None else Poly.atom(("s", name))

    def num(self, p):
        return E(self.S.num(topoly(p)))

    @property
    def pi(self):
        return self.sym("pi")

    def sum(self, n, f):
        r = M.ZERO
        for t, w in self.S.points(topoly(n)):
            r = M.vadd(r, M.vmul(w, ev(f(t))))
        return E(M.summed(r))

    def idx(self, e):
        """Use an expression as a (data dependent) index."""
        return Poly.atom(("intfn", "fpv", M.FpKey(ev(e))))

    def rfft(self, n, f, k, N=None):
        """Unnormalised real-input DFT bin k of f over [0, n) (zero padded / truncated to N)."""
        from .semops import linear
        Nv = self.S.num(topoly(n if N is None else N))
        return E(linear(self.S, ("dft", Nv.key()), topoly(n), lambda t: ev(f(t)), [self.S.num(topoly(k))], cplx=True))

    def ifft(self, n, f, k):
        from .semops import linear
        Nv = self.S.num(topoly(n))
        return E(linear(self.S, ("dft", Nv.key(), "inv"), topoly(n), lambda t: ev(f(t)), [self.S.num(topoly(k))], cplx=True)) / E(Nv)

    def irfft(self, m, f, t, N):
        """Inverse real DFT of length N of the m-bin half spectrum f, sample t (1/N included)."""
        S = self.S
        Nv = S.num(topoly(N))
        r = M.ZERO
        for q, w in S.points(topoly(m)):
            v = ev(f(q))
            kk = ("irdft", Nv.key(), S.num(topoly(t)).key(), S.num(q).key())
            r = M.vadd(r, M.vadd(M.vmul(Val(F.h("a", *kk)), Val(v.re, None, v.taint, v.deps)),
                                 M.vmul(Val(F.h("b", *kk)), Val(v.im or F.ZERO, None, v.taint, v.deps))))
        return E(M.summed(r)) / E(Nv)

    def interp(self, n, f, i, size, mode="linear", align="None"):
        S = self.S
        r = M.ZERO
        for t, w in S.points(topoly(n)):
            kk = ("interp", mode, align, S.num(t).key(), S.num(topoly(i)).key(), S.num(topoly(size)).key())
            r = M.vadd(r, M.vmul(Val(F.h(*kk)), ev(f(t))))
        return E(M.summed(r))

    def quantile(self, n, f, q):
        S = self.S
        vs = [ev(f(t)) for t, w in S.points(topoly(n))]
        from .semops import stable
        return E(M.opaque("red:quantile", ((stable(q),), 1), vs + [S.num(topoly(n))]))

    def prefix(self, n, f, i):
        from .semops import linear
        return E(linear(self.S, "prefix", topoly(n), lambda t: ev(f(t)), [self.S.num(topoly(i))]))

    def linear(self, key, n, f, out, cplx=False):
        from .semops import linear
        return E(linear(self.S, key, topoly(n), lambda t: ev(f(t)), [self.S.num(topoly(o)) for o in out], cplx=cplx))

    def cge(self, p):
        return E(self.S.cge(topoly(p)))

    def ceq(self, p):
        return E(self.S.ceq(topoly(p)))

    def window(self, name, n, periodic=True):
        node = self.I.node("window", (), (name, topoly(n), periodic), None, "f32", None)
        S = self.S
        return lambda i: E(S.val(node, (topoly(i),)))

    # -- comparison ----------------------------------------------------------------
    def expect(self, actual, dims, f, label="result", dtype=None, only=None):
        """The tensor `actual` has shape dims and elements f(*idx)."""
        res = self.results
        if not isinstance(actual, Tensor):
            if isinstance(actual, (Num, int, float)) and not dims:
                v = self.S.num(actual.p if isinstance(actual, Num) else actual)
                w = ev(f())
                ok = F.agree((v.re, w.re), (v.im or F.ZERO, w.im or F.ZERO))
                res.append((label, "equal" if ok else "value", ""))
                return ok
            from .values import Top
            res.append((label, "undecided" if isinstance(actual, Top) or actual is None and False else "value",
                        "not a tensor: %r" % (actual,)))
            return False
        if actual.shape is None:
            res.append((label, "undecided", "shape unknown"))
            return None
        if dims is not None:
            dims = [topoly(d) for d in dims]
            if len(dims) != len(actual.shape):
                res.append((label, "shape", "has %d axes %r, expected %d %r" % (len(actual.shape), list(actual.shape), len(dims), dims)))
                return False
            for k, (a, b) in enumerate(zip(actual.shape, dims)):
                if self.I.same(a.p - b) is not True and not F.agree((self.S.num(a.p).re, self.S.num(b).re)):
                    res.append((label, "shape", "axis %d has length %r, expected %r" % (k, a.p, b)))
                    return False
        if dtype is not None and actual.dtype != dtype:
            res.append((label, "dtype", "%s instead of %s" % (actual.dtype, dtype)))
            return False
        S = self.S
        if any(d.p.is_zero() or self.I.same(d.p) is True for d in actual.shape):
            res.append((label, "equal", "no elements"))
            return True
        idx = only if only is not None else S.free(actual.shape)
        v = S.val(actual, tuple(topoly(i) for i in idx))
        w = ev(f(*idx))
        if v.taint or w.taint:
            res.append((label, "undecided", "an operation outside the analysed subset reaches the result"))
            return None
        vi, wi = v.im or F.ZERO, w.im or F.ZERO
        ok = F.agree((v.re, w.re), (vi, wi))
        why = ""
        if not ok and only is None:
            ok, why = self.elementwise(actual, f, idx)
        if ok is None:
            res.append((label, "undecided", "an operation outside the analysed subset reaches the result"))
            return None
        res.append((label, "equal" if ok else "value", why))
        return ok

    def elementwise(self, actual, f, idx):
        """Compare along the axes of literal length one position at a time."""
        import itertools
        ns = [d.p.cval() for d in actual.shape]
        total = 1
        for n in ns:
            total *= int(n) if n is not None else 1
        if not 1 < total <= 512:
            return False, ""
        for js in itertools.product(*[[None] if n is None else range(int(n)) for n in ns]):
            ii = [topoly(i) if j is None else Poly.const(j) for i, j in zip(idx, js)]
            v, w = self.S.val(actual, tuple(ii)), ev(f(*ii))
            if v.taint or w.taint:
                return None, ""
            if not F.agree((v.re, w.re), (v.im or F.ZERO, w.im or F.ZERO)):
                return False, "at [%s]" % ", ".join("." if j is None else str(j) for j in js)
        return True, ""

    def same_value(self, a, b, label):
        a, b = ev(a), ev(b)
        if a.taint or b.taint:
            self.results.append((label, "undecided", ""))
            return None
        ok = F.agree((a.re, b.re), (a.im or F.ZERO, b.im or F.ZERO))
        self.results.append((label, "equal" if ok else "value", ""))
        return ok

    def matches(self, a, b, label="result", dtype=False):
        """Two abstract values agree: same structure, tensors element by element."""
        from .values import Top, AStr, AbsSeq
        if isinstance(a, AbsSeq) or isinstance(b, AbsSeq):
            return self.match_seqs(a, b, label, dtype)
        if isinstance(b, (list, tuple, PyList)) or isinstance(a, (list, tuple, PyList)):
            x, y = [list(v.items) if isinstance(v, PyList) else list(v) if isinstance(v, (list, tuple)) else None for v in (a, b)]
            if x is None or y is None:
                self.results.append((label, "undecided" if isinstance(a, Top) or isinstance(b, Top) else "structure", ""))
                return
            self.require(len(x) == len(y), label + ": number of values", "%d, expected %d" % (len(x), len(y)))
            if len(x) == len(y):
                for k, (u, v) in enumerate(zip(x, y)):
                    self.matches(u, v, "%s %d" % (label, k), dtype)
            return
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            self.require(set(map(repr, a.d)) == set(map(repr, b.d)), label + ": keys")
            if set(map(repr, a.d)) == set(map(repr, b.d)):
                for k in b.d:
                    self.matches(a.d[k], b.d[k], "%s[%s]" % (label, k), dtype)
            return
        if isinstance(a, (Top, AStr)) or isinstance(b, (Top, AStr)):
            self.results.append((label, "undecided", "unknown value"))
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return self.require(type(a) is type(b) and a == b, label, "%r, expected %r" % (a, b))
        if isinstance(b, Tensor):
            if b.shape is None or isinstance(a, Tensor) and a.shape is None:
                self.results.append((label, "undecided", "shape unknown"))
                return
            return self.expect(a, [d.p for d in b.shape], self.of(b), label, b.dtype if dtype else None)
        if isinstance(b, (Num, int, float)) and isinstance(a, (Num, int, float, Tensor)):
            v = b.p if isinstance(b, Num) else topoly(b)
            return self.expect(a, [], lambda: self.num(v), label)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.require(a is b, label)
        self.results.append((label, "undecided", "values of type %s" % type(a).__name__))

    def match_seqs(self, a, b, label, dtype):
        """Sequences of symbolic length: equal lengths and equal elements at a generic position."""
        from .values import AbsSeq, Top

        def view(v):
            if isinstance(v, AbsSeq):
                return v.length, v.elem
            v = list(v.items) if isinstance(v, PyList) else list(v) if isinstance(v, (list, tuple)) else None
            return (None, None) if v is None else (Poly.const(len(v)), lambda p, v=v: v[int(p.cval())])
        (la, ea), (lb, eb) = view(a), view(b)
        if la is None or lb is None:
            self.results.append((label, "undecided", "sequence of unknown length"))
            return
        if self.I.same(la - lb) is not True:
            if not F.agree((self.S.num(la).re, self.S.num(lb).re)):
                self.require(False, label + ": number of values", "%s, expected %s" % (A.show(la), A.show(lb)))
                return
        c = lb.cval() if lb.cval() is not None else la.cval()
        if c is not None and c > 16:
            self.results.append((label, "undecided", "long sequence"))
            return
        pts = [Poly.const(k) for k in range(int(c))] if c is not None else [self.S.atom("q:" + A.show(lb), lb)]
        for p in pts:
            try:
                u, v = ea(p), eb(p)
            except Exception as ex:
                self.results.append((label, "undecided", "element: %r" % (ex,)))
                return
            self.matches(u, v, "%s element" % label, dtype)

    def compare(self, label="result", dtype=False):
        """Judge an entry built with Ctx.pair; values accumulated in loops of unknown length stay undecided."""
        n = len(self.results)
        self._compare(label, dtype)
        if any(v.kind == "absloop" for v in self.r.events):
            self.results[n:] = [(x[0], "undecided" if x[1] not in ("equal", "undecided") else x[1]) + tuple(x[2:])
                                for x in self.results[n:]]

    def _compare(self, label, dtype):
        if not self.returns():
            return self.results.append((label, "undecided" if self.r.aborted else "outcome",
                                        "set-up does not complete: %s %s" % (self.r.exc, self.r.aborted or "")))
        a, b = self.r.value
        if a[0] != b[0]:
            und = self.I.tops and False
            return self.results.append((label, "undecided" if und else "outcome", "%s %s, expected %s %s" % (
                a[0], a[1] if a[0] == "raises" else "a value", b[0], b[1] if b[0] == "raises" else "a value")))
        if a[0] == "raises":
            return self.require(a[1] == b[1], label + ": rejected alike", "raises %s, expected %s" % (a[1], b[1]))
        self.matches(a[1], b[1], label, dtype)

    def require(self, cond, label, why=""):
        self.results.append((label, "equal" if cond else "value", why))

    def walk(self, *roots):
        """All nodes of the computation graphs of the given values."""
        todo = [self.I.nd(r) if isinstance(r, Tensor) else r for r in roots]
        seen = set()
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen or not hasattr(n, "args"):
                continue
            seen.add(id(n))
            yield n
            todo.extend(n.args)

    def returns(self):
        return self.r.exc is None and self.r.aborted is None

    def items(self, v=None):
        v = self.r.value if v is None else v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.items)
        return [v]


def subject(r, e):
    """(file, function) an outcome is reported against: the package function the entry calls."""
    for q in r.interp.subjects:
        return q
    return ("ml4gw", e.name)


def judge(prop, e, results, out):
    """Apply the specs of a property to one entry point's paths."""
    import os
    from .framework import Finding
    for pat, f in REG.get(prop, ()):
        m = pat.search(e.name)
        if not m:
            continue
        out.see("specified_entry_points")
        for r in results:
            if r.aborted:
                out.see("paths_not_covered")
                continue
            s = Spec(e, r)
            s.S.check_conditions()
            if s.S.infeasible:
                out.see("contradictory_paths")
                continue
            file, func = subject(r, e)
            try:
                f(s, m)
            except Exception as k:
                if os.environ.get("SA_DEBUG"):
                    raise
                out.see("undecided")
                out.notes.append("%s: not comparable: %s %s" % (e.name, type(k).__name__, str(k)[:120]))
                continue
            for label, verdict, why in s.results:
                out.see("obligations")
                if verdict == "equal":
                    out.see("discharged")
                elif verdict == "undecided":
                    out.see("undecided")
                    out.notes.append("%s: %s: %s" % (e.name, label, why))
                else:
                    msg = "%s: %s deviates from the reference (%s%s)" % (e.name, label, verdict, " " + why if why else "")
                    site = "" if label.startswith("@") else e.name + "|"
                    out.add(Finding("deviates-from-reference", file, func, "%s%s|%s" % (site, label.lstrip("@"), verdict), msg))
