"""Canonical polynomial / power-product normal forms.

The number domain of the analyser.  A Poly is a finite sum of monomials with
Fraction coefficients; a monomial is a power product of atoms with Fraction
exponents.  Atoms are declared symbols or uninterpreted function applications
over normal forms, so two source expressions that denote the same quantity up
to ring identities get the *same* Poly (value numbering modulo ring axioms).
No solver, no search over paths: normalisation is a bottom-up rewrite.
"""
from __future__ import annotations

from fractions import Fraction as Fr
import math

ONE = Fr(1)
ZERO = Fr(0)

# symbol registry: name -> dict(integer=bool, lo=Fraction|None, pos=bool, val=float|None)
SYM: dict = {}


def declare(name, integer=False, lo=None, pos=None, val=None, hi=None):
    SYM[name] = dict(integer=integer, lo=None if lo is None else Fr(lo),
                     hi=None if hi is None else Fr(hi),
                     pos=(lo is not None and lo > 0) if pos is None else pos,
                     val=val)
    return Poly.atom(("s", name))


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._k = None

    # -- construction -----------------------------------------------------
    @staticmethod
    def const(c):
        c = tofr(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a, e=ONE):
        return Poly({((a, Fr(e)),): ONE})

    # -- predicates -------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        if not self.t:
            return ZERO
        return self.t.get((), ZERO) if self.is_const() else None

    def is_zero(self):
        return not self.t

    def is_monomial(self):
        return len(self.t) == 1

    # -- identity ---------------------------------------------------------
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=lambda kv: repr(kv[0])))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- ring -------------------------------------------------------------
    def __add__(self, o):
        o = topoly(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, ZERO) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        if len(self.t) * len(o.t) > 20000:
            raise Blowup()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                k, kc = mmul(m1, m2)
                v = r.get(k, ZERO) + c1 * c2 * kc
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, e):
        return ppow(self, tofr(e))

    def __truediv__(self, o):
        return self * ppow(topoly(o), Fr(-1))

    def __rtruediv__(self, o):
        return topoly(o) * ppow(self, Fr(-1))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def deep_syms(self):
        s = set()
        _deep(self, s)
        return s

    def subst(self, fn):
        """Replace atoms: fn(atom) -> Poly | None (bottom-up)."""
        out = Poly({})
        for m, c in self.t.items():
            p = Poly({(): c})
            for a, e in m:
                p = p * ppow(atom_subst(a, fn), e)
            out = out + p
        return out


class Blowup(Exception):
    pass


def tofr(c):
    if isinstance(c, Fr):
        return c
    if isinstance(c, bool):
        return Fr(int(c))
    if isinstance(c, int):
        return Fr(c)
    if isinstance(c, float):
        return Fr(repr(c))
    return Fr(c)


def topoly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def _deep(p, s):
    for a in p.atoms():
        if a[0] == "s":
            s.add(a[1])
        else:
            for x in a[1:]:
                if isinstance(x, Poly):
                    _deep(x, s)


_ITEM = {}


def has_item(p):
    """Does a normal form mention an element of a tensor?"""
    r = _ITEM.get(p)
    if r is None:
        r = _ITEM[p] = any(a[0] == "item" or a[0] == "intfn" and a[1] in ("item", "nnz") or any(
            isinstance(x, Poly) and has_item(x) for x in a[1:]) for a in p.atoms() if a[0] != "s")
    return r


def atom_subst(a, fn):
    r = fn(a)
    if r is not None:
        return r
    if a[0] == "s":
        return Poly.atom(a)
    new = tuple(x.subst(fn) if isinstance(x, Poly) else x for x in a[1:])
    if new == a[1:]:
        return Poly.atom(a)
    k = a[0]
    if k == "idiv":
        return idiv(*new)
    if k == "trunc":
        return trunc(new[0])
    if k == "ceil":
        return ceil(new[0])
    if k == "p":
        return new[0]
    if k == "fn":
        return fn_atom(*new)
    return Poly.atom((k,) + new)


def mmul(m1, m2):
    if not m1:
        return m2, ONE
    if not m2:
        return m1, ONE
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, ZERO) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return msort(d)


def msort(d):
    c = ONE
    # constant-power atoms ('c', Fr): fold integer parts
    for a in [a for a in d if a[0] == "c"]:
        e = d[a]
        n = math.floor(e)
        if n:
            c *= a[1] ** n
            e -= n
        if e:
            d[a] = e
        else:
            del d[a]
    # imaginary unit
    if I_ATOM in d:
        e = d.pop(I_ATOM)
        if e.denominator == 1:
            n = int(e) % 4
            if n >= 2:
                c = -c
            if n % 2:
                d[I_ATOM] = ONE
        else:
            d[I_ATOM] = e
    return tuple(sorted(d.items(), key=_akey)), c


_AK: dict = {}


def _akey(ae):
    a = ae[0]
    k = _AK.get(a)
    if k is None:
        k = _AK[a] = repr(a)
    return k


I_ATOM = ("s", "I")


def is_positive_atom(a):
    if a[0] == "s":
        d = SYM.get(a[1])
        return bool(d and d["pos"])
    if a[0] == "c":
        return a[1] > 0
    if a[0] == "p":
        return all(c > 0 and all(is_positive_atom(x) for x, _ in m) for m, c in a[1].t.items())
    if a[0] == "fn" and a[1] in ("exp", "cosh"):
        return True
    return False


def ppow(p, e):
    if e == 1:
        return p
    if e == 0:
        return Poly({(): ONE})
    if p.is_zero():
        if e > 0:
            return p
        return Poly.atom(("inf0",))
    if p.is_monomial():
        (m, c), = p.t.items()
        if e.denominator == 1:
            r, k = msort({a: x * e for a, x in m})
            return Poly({r: k * c ** int(e)})
        if c > 0 and all(is_positive_atom(a) for a, _ in m):
            d = {a: x * e for a, x in m}
            out = Poly({})
            r, k = msort(d)
            base = Poly({r: k})
            return base * cpow(c, e)
        # odd-root handling is unsafe without sign knowledge: stay opaque
        pos = {a: x * e for a, x in m if is_positive_atom(a)}
        rest = {a: x for a, x in m if not is_positive_atom(a)}
        if c > 0 and (pos or c != 1):
            r, k = msort(pos)
            restp = Poly({msort(rest)[0]: ONE})
            return Poly({r: k}) * cpow(c, e) * Poly.atom(("p", restp), e)
        return Poly.atom(("p", p), e)
    if e.denominator == 1 and 0 < e <= 6:
        n = int(e)
        r = p
        for _ in range(n - 1):
            r = r * p
        return r
    # normalise leading coefficient so that k*q and q share the atom
    lead = p.key()[0][1]
    if e.denominator == 1:
        if lead != 1:
            q = Poly({m: c / lead for m, c in p.t.items()})
            return ppow(q, e) * Poly.const(lead ** int(e))
        return Poly.atom(("p", p), e)
    al = abs(lead)
    if al != 1:
        q = Poly({m: c / al for m, c in p.t.items()})
        return Poly.atom(("p", q), e) * cpow(al, e)
    return Poly.atom(("p", p), e)


def cpow(c, e):
    """c**e for a positive rational constant."""
    if c == 1:
        return Poly({(): ONE})
    n, d = c.numerator, c.denominator
    out = Poly({(): ONE})
    for f, k in list(factor(n).items()) + [(f, -k) for f, k in factor(d).items()]:
        x = k * e
        fl = math.floor(x)
        co = Fr(f) ** fl
        x -= fl
        out = out * (Poly({((("c", Fr(f)), x),): co}) if x else Poly.const(co))
    return out


def factor(n):
    r = {}
    p = 2
    while p * p <= n and p < 5000:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


# -- integer-valued reasoning ----------------------------------------------

def is_int_atom(a):
    if a[0] == "s":
        d = SYM.get(a[1])
        return bool(d and d["integer"])
    return a[0] in ("idiv", "trunc", "ceil", "intfn")


def is_int(p):
    return all(c.denominator == 1 and all(is_int_atom(a) and e.denominator == 1 and e > 0 for a, e in m)
               for m, c in p.t.items())


def split_int(p, k=ONE):
    """p = k*q + r with q integer valued and syntactically divisible."""
    q, r = {}, {}
    for m, c in p.t.items():
        v = c / k
        if v.denominator == 1 and all(is_int_atom(a) and e.denominator == 1 and e > 0 for a, e in m):
            q[m] = v
        elif not m:
            fl = Fr(math.floor(v))
            if fl:
                q[m] = fl
            if c - fl * k:
                r[m] = c - fl * k
        elif is_int(Poly({m: ONE})) and c.denominator == 1 and k.denominator == 1:
            fl = Fr(math.floor(v))
            if fl:
                q[m] = fl
            rem = c - fl * k
            if rem:
                r[m] = rem
        else:
            r[m] = c
    return Poly(q), Poly(r)


def idiv(a, b):
    a, b = topoly(a), topoly(b)
    cb = b.cval()
    if cb is None or a.cval() is None:
        try:
            x = certain(a / b) if b.t else None
        except Blowup:
            x = None
        if x is not None:
            return Poly.const(math.floor(x))
    if cb is not None and cb != 0:
        ca = a.cval()
        if ca is not None:
            return Poly.const(ca // cb)
        if cb > 0:
            q, r = split_int(a, cb)
            if r.is_zero():
                return q
            if r.is_const() and 0 <= r.cval() < cb:
                return q
            return q + Poly.atom(("idiv", r, b))
        return Poly.atom(("idiv", a, b))
    # symbolic divisor: pull out terms that are exact integer multiples
    try:
        quo = a / b
        if is_int(quo):
            return quo
        q = Poly({m: c for m, c in quo.t.items() if is_int(Poly({m: c}))})
        if not q.is_zero():
            rest = a - q * b
            if rest.is_zero():
                return q
            return q + Poly.atom(("idiv", rest, b))
    except Blowup:
        pass
    return Poly.atom(("idiv", a, b))


def mod(a, b):
    a, b = topoly(a), topoly(b)
    return a - b * idiv(a, b)


def certain(p):
    """Float value of a closed expression that is clearly not an integer, else None."""
    if not p.t or any(a[0] not in ("c", "p", "fn", "s", "trunc", "ceil", "idiv") for a in p.atoms()):
        return None
    x = numeric(p)
    if x is None or x != x or abs(x) > 1e12 or abs(x - round(x)) < 2e-6 * (1 + abs(x)):
        return None
    return x


def trunc(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(int(c))
    x = certain(p)
    if x is not None:
        return Poly.const(int(x))
    return Poly.atom(("trunc", p))


def ceil(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(math.ceil(c))
    x = certain(p)
    if x is not None:
        return Poly.const(math.ceil(x))
    return Poly.atom(("ceil", p))


ODD = {"sin", "tan", "arctan", "atan", "asin", "arcsin", "sinh", "tanh", "sign"}
EVEN = {"cos", "cosh", "abs"}
ALIAS = {"arctan": "atan", "arcsin": "asin", "arccos": "acos", "arctan2": "atan2", "arccosh": "acosh",
         "absolute": "abs", "square": "sq", "power": "pow"}


def fn_atom(name, *args):
    name = ALIAS.get(name, name)
    if name == "sqrt":
        return ppow(topoly(args[0]), Fr(1, 2))
    if len(args) == 1 and isinstance(args[0], Poly):
        p = args[0]
        if p.is_zero() and name in ("sin", "tan", "asin", "atan", "sinh", "tanh", "abs", "sign"):
            return p
        if p.is_zero() and name in ("cos", "exp", "cosh"):
            return Poly.const(1)
        if name == "log" and p.cval() == 1:
            return Poly({})
        if name in ODD or name in EVEN:
            lead = p.key()[0][1] if p.t else ONE
            if lead < 0:
                r = Poly.atom(("fn", name, -p))
                return -r if name in ODD else r
        if name == "abs":
            c = p.cval()
            if c is not None:
                return Poly.const(abs(c))
            if p.is_monomial():
                (m, c), = p.t.items()
                if all(is_positive_atom(a) for a, _ in m):
                    return Poly({m: abs(c)})
        if name == "log" and p.is_monomial():
            (m, c), = p.t.items()
            if c > 0 and m and all(is_positive_atom(a) for a, _ in m):
                out = Poly({})
                for a, e in m:
                    out = out + Poly.atom(("fn", "log", Poly.atom(a))) * Poly.const(e)
                for f, k in factor(c.numerator).items():
                    out = out + Poly.atom(("fn", "log", Poly.const(f))) * Poly.const(k)
                for f, k in factor(c.denominator).items():
                    out = out - Poly.atom(("fn", "log", Poly.const(f))) * Poly.const(k)
                return out
        if name == "exp":
            # exp(sum) -> product of exps of monomials (canonical)
            out = Poly.const(1)
            for m, c in p.t.items():
                # normalise: exp(c*m) = exp(m)**c when c rational integer
                if len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ("fn", "log") and abs(c) <= 64:
                    try:
                        out = out * ppow(topoly(m[0][0][2]), c)
                        continue
                    except Blowup:
                        pass
                out = out * Poly({((("fn", "exp", Poly({m: ONE})), c),): ONE})
            return out
    return Poly.atom(("fn", name) + tuple(args))


def clear_denominators(p, limit=40):
    """Multiply p by the denominators hidden in ('p', q) atoms; zero-preserving."""
    for _ in range(limit):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a[0] == "p" and e < 0:
                    k = math.ceil(-e)
                    worst[a] = max(worst.get(a, 0), k)
        if not worst:
            # expand positive integer powers of ('p', q)
            again = False
            out = Poly({})
            for m, c in p.t.items():
                f = Poly({(): c})
                for a, e in m:
                    if a[0] == "p" and e >= 1:
                        n = math.floor(e)
                        again = True
                        f = f * ppow(a[1], Fr(n)) if n <= 6 else f * Poly.atom(a, Fr(n))
                        if e - n:
                            f = f * Poly.atom(a, e - n)
                    else:
                        f = f * Poly.atom(a, e)
                out = out + f
            if not again:
                return p
            p = out
            continue
        for a, k in worst.items():
            p = _mul_clear(p, a, k)
    return p


def _mul_clear(p, a, k):
    out = Poly({})
    cache = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(a, ZERO) + k
        rest = Poly({msort(d)[0]: c * msort(dict(d))[1]})
        n = math.floor(e)
        if n not in cache:
            cache[n] = ppow(a[1], Fr(n)) if n else Poly.const(1)
        f = rest * cache[n]
        if e - n:
            f = f * Poly.atom(a, e - n)
        out = out + f
    return out


def equal(a, b):
    d = topoly(a) - topoly(b)
    if d.is_zero():
        return True
    try:
        return clear_denominators(d).is_zero()
    except Blowup:
        return None


def diff(p, name):
    """Formal derivative d p / d symbol."""
    out = Poly({})
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, name)
            if da.is_zero():
                continue
            rest = dict(m)
            rest[a] = e - 1
            if not rest[a]:
                del rest[a]
            r, k = msort(rest)
            out = out + Poly({r: c * e * k}) * da
    return out


def diff_atom(a, name):
    if a == ("s", name):
        return Poly.const(1)
    if a[0] == "s" or a[0] == "c":
        return Poly({})
    if a[0] == "p":
        return diff(a[1], name)
    if a[0] == "fn":
        inner = [x for x in a[2:] if isinstance(x, Poly)]
        if not any(name in x.deep_syms() for x in inner):
            return Poly({})
        f = a[1]
        u = a[2]
        du = diff(u, name)
        if f == "sin":
            return fn_atom("cos", u) * du
        if f == "cos":
            return -fn_atom("sin", u) * du
        if f == "exp":
            return fn_atom("exp", u) * du
        if f == "log":
            return du / u
        if f == "atan":
            return du / (Poly.const(1) + u * u)
        raise ValueError("no derivative rule for " + f)
    if any(isinstance(x, Poly) and name in x.deep_syms() for x in a[1:]):
        raise ValueError("no derivative rule for %r" % (a,))
    return Poly({})


# -- numeric evaluation (constants only; used to fix signs of literals) -------

def numeric(p, env=None):
    tot = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            x = num_atom(a, env)
            if x is None:
                return None
            try:
                v *= x ** float(e)
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
        tot += v
    return tot


def num_atom(a, env):
    if a[0] == "s":
        if env and a[1] in env:
            return env[a[1]]
        d = SYM.get(a[1])
        return d["val"] if d else None
    if a[0] == "c":
        return float(a[1])
    if a[0] == "p":
        return numeric(a[1], env)
    if a[0] == "fn" and a[1] == "pow" and len(a) == 4:
        x, y = numeric(a[2], env), numeric(a[3], env)
        try:
            return None if x is None or y is None else float(x ** y)
        except (ValueError, OverflowError, TypeError, ZeroDivisionError):
            return None
    if a[0] == "fn" and len(a) == 3 and isinstance(a[2], Poly):
        x = numeric(a[2], env)
        f = getattr(math, a[1], None)
        if x is None or f is None:
            return abs(x) if (a[1] == "abs" and x is not None) else None
        try:
            return f(x)
        except (ValueError, OverflowError):
            return None
    if a[0] in ("trunc", "ceil"):
        x = numeric(a[1], env)
        if x is None:
            return None
        return float(int(x)) if a[0] == "trunc" else float(math.ceil(x))
    if a[0] == "idiv":
        x, y = numeric(a[1], env), numeric(a[2], env)
        return None if x is None or not y else float(x // y)
    return None


def plain_sizes(p, out):
    """Whether p is computed from declared integer symbols of the inputs only; collects them."""
    ok = True
    for m in p.t:
        for a, e in m:
            if a[0] == "s":
                d = SYM.get(a[1])
                if d is None or not d["integer"] or d["lo"] is None or "#" in str(a[1]):
                    ok = False
                else:
                    out.add(a[1])
            elif a[0] in ("p", "trunc", "ceil"):
                ok &= plain_sizes(a[1], out)
            elif a[0] == "idiv":
                ok &= plain_sizes(a[1], out) & plain_sizes(a[2], out)
            elif a[0] != "c":
                ok = False
    return ok


# -- printing -----------------------------------------------------------------

def show_atom(a):
    if a[0] == "s":
        return str(a[1])
    if a[0] == "c":
        return str(a[1])
    if a[0] == "p":
        return "(%s)" % show(a[1])
    if a[0] == "fn":
        return "%s(%s)" % (a[1], ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in a[2:]))
    if a[0] == "idiv":
        return "(%s)//(%s)" % (show(a[1]), show(a[2]))
    return "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in a[1:]))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.key():
        fs = []
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else "%s^%s" % (s, e if e.denominator == 1 and e > 0 else "(%s)" % e))
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append("%s*%s" % (c, "*".join(fs)))
    return " + ".join(out).replace("+ -", "- ")


# -- linear entailment over monomials (polyhedral domain) ---------------------

class Facts:
    """Conjunction of p >= 0 facts; entails() by Fourier-Motzkin over monomials."""

    def __init__(self, facts=()):
        self.facts = list(facts)
        self.neq = []

    def add_ge0(self, p):
        self.facts.append(p)
        # a positive common factor can be cancelled: B*C - B >= 0 gives C - 1 >= 0
        if len(p.t) > 1:
            common = set.intersection(*[{a for a, e in m if e >= 1} for m in p.t])
            common = [a for a in common if is_positive_atom(a)]
            if common:
                q = p
                for a in common:
                    q = q * Poly.atom(a, Fr(-1))
                self.add_ge0(q)

    def copy(self):
        r = Facts(self.facts)
        r.neq = list(self.neq)
        return r

    def atom_facts(self, polys):
        seen, todo, out = set(), list(polys), []
        while todo:
            p = todo.pop()
            for m in p.t:
                if m and m not in seen:
                    seen.add(m)
                    lo = mono_lo(m)
                    if lo is not None:
                        out.append(Poly({m: ONE}) - Poly.const(lo))
                    if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "s":
                        d = SYM.get(m[0][0][1])
                        if d and d.get("hi") is not None:
                            out.append(Poly.const(d["hi"]) - Poly({m: ONE}))
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    new = []
                    if a[0] == "idiv":
                        q, x, b = Poly.atom(a), a[1], a[2]
                        if self._pos(b):
                            new.append(x - b * q)
                            if is_int(x) and is_int(b):
                                new.append(b * q + b - Poly.const(1) - x)
                            else:
                                new.append(b * q + b - x)
                    elif a[0] == "trunc":
                        q, x = Poly.atom(a), a[1]
                        if mono_nonneg(x):
                            new.append(x - q)
                            new.append(q + Poly.const(1) - x)
                            new.append(q)
                    elif a[0] == "ceil":
                        q, x = Poly.atom(a), a[1]
                        new.append(q - x)
                        new.append(x + Poly.const(1) - q)
                    out.extend(new)
                    todo.extend(new)
        return out

    def _pos(self, b):
        c = b.cval()
        if c is not None:
            return c > 0
        return all(c > 0 and all(is_positive_atom(a) or (a[0] == "trunc") for a, _ in m) for m, c in b.t.items())

    def entails_ge0(self, p, integer=None):
        """True if p >= 0 follows; False only means 'not shown'."""
        c = p.cval()
        if c is not None:
            return c >= 0
        if trivially_ge0(p):
            return True
        # refute p < 0, i.e. p <= -1 when integer valued, else p <= -eps
        isint = is_int(p) if integer is None else integer
        cons = list(self.facts)
        cons += self.atom_facts(cons + [p])
        neg = -p - Poly.const(1) if isint else -p
        return infeasible(cons, neg, strict=not isint)

    def entails_gt0(self, p):
        if is_int(p):
            return self.entails_ge0(p - Poly.const(1), integer=True)
        c = p.cval()
        if c is not None:
            return c > 0
        cons = list(self.facts)
        cons += self.atom_facts(cons + [p])
        return infeasible(cons, -p, strict=False)


def mono_lo(m):
    """Lower bound of a monomial from declared symbol bounds."""
    lo = ONE
    allint = True
    for a, e in m:
        if a[0] == "s":
            d = SYM.get(a[1])
            if not d:
                return None
            if d["lo"] is not None and d["lo"] >= 1 and e > 0 and e.denominator == 1:
                lo *= d["lo"] ** int(e)
            elif d["pos"] or (d["lo"] is not None and d["lo"] >= 0):
                lo = ZERO
                allint = False
            else:
                return None
        elif a[0] == "idiv" and mono_nonneg(a[1]) and mono_nonneg(a[2]):
            lo = ZERO
        elif a[0] == "trunc" and mono_nonneg(a[1]):
            lo = ZERO
        elif is_positive_atom(a):
            lo = ZERO
        else:
            return None
    return lo if allint or lo == 0 else ZERO


def mono_nonneg(p):
    return all(c >= 0 and (not m or mono_lo(m) is not None) for m, c in p.t.items())


def trivially_ge0(p):
    tot = p.t.get((), ZERO)
    for m, c in p.t.items():
        if not m:
            continue
        lo = mono_lo(m)
        if c < 0 or lo is None:
            return False
        tot += c * lo
    return tot >= 0


def infeasible(cons, last, strict):
    """Fourier-Motzkin: is {c >= 0 for c in cons} and (last >= 0 or last > 0) empty?"""
    rows = []
    for p in cons:
        rows.append((dict(p.t), False))
    rows.append((dict(last.t), strict))
    # only keep rows connected to `last`
    vars_ = set(m for m in last.t if m)
    changed = True
    keep = [False] * len(rows)
    keep[-1] = True
    while changed:
        changed = False
        for i, (r, s) in enumerate(rows):
            if not keep[i] and any(m in vars_ for m in r if m):
                keep[i] = True
                changed = True
                vars_ |= set(m for m in r if m)
    rows = [r for i, r in enumerate(rows) if keep[i]]
    uniq = {}
    for r, s in rows:
        k = frozenset(r.items())
        uniq[k] = (r, (k in uniq and uniq[k][1]) or s)
    rows = list(uniq.values())
    for _ in range(60):
        # contradiction?
        for r, s in rows:
            if not any(m for m in r):
                c = r.get((), ZERO)
                if c < 0 or (s and c <= 0):
                    return True
        vs = {}
        for r, s in rows:
            for m, c in r.items():
                if m:
                    v = vs.setdefault(m, [0, 0])
                    v[0 if c > 0 else 1] += 1
        if not vs:
            return False
        m = min(vs, key=lambda k: vs[k][0] * vs[k][1] - vs[k][0] - vs[k][1])
        pos = [(r, s) for r, s in rows if r.get(m, ZERO) > 0]
        neg = [(r, s) for r, s in rows if r.get(m, ZERO) < 0]
        rest = [(r, s) for r, s in rows if m not in r]
        if len(pos) * len(neg) > 600:
            return False
        for r1, s1 in pos:
            for r2, s2 in neg:
                a, b = -r2[m], r1[m]
                n = {}
                for k, v in r1.items():
                    n[k] = n.get(k, ZERO) + a * v
                for k, v in r2.items():
                    n[k] = n.get(k, ZERO) + b * v
                n = {k: v for k, v in n.items() if v}
                if not any(k for k in n):
                    c = n.get((), ZERO)
                    if c < 0 or ((s1 or s2) and c <= 0):
                        return True
                    continue
                rest.append((n, s1 or s2))
        # dedupe (scale-normalised)
        seen = {}
        for r, s in rest:
            sc = max(abs(v) for k, v in r.items() if k) if any(k for k in r) else ONE
            k = frozenset((kk, v / sc) for kk, v in r.items())
            seen[k] = ({kk: v / sc for kk, v in r.items()}, (k in seen and seen[k][1]) or s)
        rows = list(seen.values())
        if len(rows) > 400:
            return False
    return False


def exact_div(p, q):
    """p/q as a polynomial when the division is exact (multivariate, lexicographic order), else None."""
    atoms = sorted({a for m in list(p.t) + list(q.t) for a, _ in m}, key=repr)
    for m in list(p.t) + list(q.t):
        for _, e in m:
            if e.denominator != 1 or e < 0:
                return None

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    if not q.t:
        return None
    lq = max(q.t, key=key)
    kq, cq = key(lq), q.t[lq]
    r, out = p, Poly.const(0)
    for _ in range(200):
        if not r.t:
            return out
        lr = max(r.t, key=key)
        kr = key(lr)
        d = [a - b for a, b in zip(kr, kq)]
        if any(x < 0 for x in d):
            return None
        term = Poly.const(r.t[lr] / cq)
        for a, e in zip(atoms, d):
            if e:
                term = term * Poly.atom(a, e)
        out = out + term
        r = r - term * q
    return None
