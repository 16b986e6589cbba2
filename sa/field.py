"""Value numbers modulo the field axioms.

A value number is a K-tuple of elements of GF(P).  Sums, products, quotients and rational powers of value numbers are
computed in the field, every other function is uninterpreted (a keyed hash of its operands' value numbers), so two
expressions that are equal by the ring/field laws (plus the few function identities coded here) get the same number and
two that are not get different ones except with probability about 1e-18 (Gulwani & Necula's random interpretation).
"""
from __future__ import annotations

import hashlib
from fractions import Fraction as Fr

K = 8
DIRTY = set()    # components in which some even root had to be taken of a non-square


def _isprime(n):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _prime():
    n = (1 << 61) - 1
    while True:
        n -= 2
        if n % 4 == 3 and (n - 1) % 3 and (n - 1) % 5 and (n - 1) % 7 and _isprime(n):
            return n


P = _prime()
HALF = (P + 1) // 4
ZERO = (0,) * K
ONE = (1,) * K
_memo = {}


def h(*key):
    """Uninterpreted value: K pseudo-random field elements keyed by `key`."""
    b = repr(key).encode()
    r = _memo.get(b)
    if r is None:
        d = hashlib.blake2b(b, digest_size=8 * K).digest()
        r = tuple(int.from_bytes(d[8 * i:8 * i + 8], "big") % P for i in range(K))
        if len(_memo) < 400000:
            _memo[b] = r
    return r


def h1(s, *key):
    d = hashlib.blake2b(repr((s, key)).encode(), digest_size=16).digest()
    return int.from_bytes(d, "big") % P


def hpos(*key):
    return tuple(x * x % P for x in h("pos", *key))


def const(c):
    c = Fr(c)
    n, d = c.numerator % P, c.denominator % P
    return ((n * pow(d, P - 2, P)) % P,) * K


def add(a, b):
    return tuple((x + y) % P for x, y in zip(a, b))


def sub(a, b):
    return tuple((x - y) % P for x, y in zip(a, b))


def neg(a):
    return tuple((-x) % P for x in a)


def mul(a, b):
    return tuple(x * y % P for x, y in zip(a, b))


def inv(a):
    return tuple(pow(x, P - 2, P) if x else h1("div0") for x in a)


class Ext:
    """a + b*j, j*j = -1: square roots of the non-squares of GF(P) live in GF(P^2).  Never has b = 0."""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    @staticmethod
    def mk(a, b):
        a %= P
        b %= P
        return Ext(a, b) if b else a

    def __mod__(self, m):
        return Ext.mk(self.a, self.b)

    def __add__(self, o):
        return Ext.mk(self.a + o.a, self.b + o.b) if isinstance(o, Ext) else Ext.mk(self.a + o, self.b)
    __radd__ = __add__

    def __neg__(self):
        return Ext.mk(-self.a, -self.b)

    def __sub__(self, o):
        return Ext.mk(self.a - o.a, self.b - o.b) if isinstance(o, Ext) else Ext.mk(self.a - o, self.b)

    def __rsub__(self, o):
        return Ext.mk(o - self.a, -self.b)

    def __mul__(self, o):
        if isinstance(o, Ext):
            return Ext.mk(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)
        return Ext.mk(self.a * o, self.b * o)
    __rmul__ = __mul__

    def __pow__(self, n, m=None):
        if n == P - 2:
            d = pow(self.a * self.a + self.b * self.b, P - 2, P)
            return Ext.mk(self.a * d, -self.b * d)
        r, b = 1, self
        while n:
            if n & 1:
                r = b * r
            b = b * b
            n >>= 1
        return r

    def key(self):
        return (1, self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, Ext) and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.a, self.b))

    def __lt__(self, o):
        return isinstance(o, Ext) and self.key() < o.key()

    def __le__(self, o):
        return self == o or self < o

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o

    def __repr__(self):
        return "%d+%dj" % (self.a, self.b)


def isqr(x):
    if isinstance(x, Ext):
        return x <= -x
    return pow(x, (P - 1) // 2, P) == 1 or x == 0


def sqrt1(x):
    if isinstance(x, Ext):
        n = (x.a * x.a + x.b * x.b) % P
        if not isqr(n):
            return h1("sqrt", x)
        s = pow(n, HALF, P)
        for t in ((x.a + s) * ((P + 1) // 2) % P, (x.a - s) * ((P + 1) // 2) % P):
            if t and isqr(t):
                c = pow(t, HALF, P)
                return Ext.mk(c, x.b * pow(2 * c, P - 2, P))
        return h1("sqrt", x)
    if isqr(x):
        return pow(x, HALF, P)
    return Ext.mk(0, pow(P - x, HALF, P))


def powq(a, e):
    e = Fr(e)
    if e == 0:
        return ONE
    n, d = e.numerator, e.denominator
    if n < 0:
        return inv(powq(a, -e))
    k = 0
    while d % 2 == 0:
        d //= 2
        k += 1
    out = []
    for i, x in enumerate(a):
        for _ in range(k):
            if i not in DIRTY and (isinstance(x, Ext) or not isqr(x)):
                DIRTY.add(i)
            x = sqrt1(x)
        if d > 1:
            try:
                if isinstance(x, Ext):
                    raise ValueError
                x = pow(x, pow(d, -1, P - 1), P)
            except ValueError:
                x = h1("root", d, x)
        out.append(pow(x, n, P))
    return tuple(out)


def absv(a):
    """|x|: of x and -x exactly one is a square; that one plays the non-negative value."""
    return tuple(x if isqr(x) else (P - x) % P for x in a)


def canon(a):
    """(representative of {a,-a}, flipped?) per component"""
    return tuple(min(x, (P - x) % P) for x in a), tuple(x > (P - x) % P for x in a)


_log = {}
INTS = set()
_exp = {}


def fn(name, a):
    """Uninterpreted unary function with its parity and the exp/log pairing."""
    if name == "abs":
        return absv(a)
    if name == "sqrt":
        return powq(a, Fr(1, 2))
    out = []
    for x in a:
        if name in ("sin", "tan", "atan", "asin", "sinh", "tanh", "erf", "asinh", "atanh", "sign", "sinc1", "trunc", "round"):
            y = (P - x) % P
            if x == 0:
                out.append(0)
                continue
            if name in ("trunc", "round") and x in INTS:
                out.append(x)
                continue
            v = h1(name, min(x, y))
            if name in ("trunc", "round"):
                INTS.add(v)
                INTS.add((P - v) % P)
            out.append(v if x <= y else (P - v) % P)
        elif name in ("cos", "cosh"):
            out.append(1 if x == 0 else h1(name, min(x, (P - x) % P)))
        elif name == "exp":
            y = (P - x) % P
            if x == 0:
                out.append(1)
            elif x in _log:
                out.append(_log[x])
            elif x <= y:
                v = h1("exp", x)
                v = v * v % P
                _exp[v] = x
                _exp[pow(v, P - 2, P)] = y
                out.append(v)
            else:
                v = h1("exp", y)
                v = v * v % P
                _exp[v] = y
                _exp[pow(v, P - 2, P)] = x
                out.append(pow(v, P - 2, P))
        elif name == "log":
            if x == 1:
                out.append(0)
            elif x in _exp:
                out.append(_exp[x])
            else:
                y = pow(x, P - 2, P) if x else 0
                if x <= y:
                    v = h1("log", x)
                    _log[v] = x
                    _log[(P - v) % P] = y
                    out.append(v)
                else:
                    v = h1("log", y)
                    _log[v] = y
                    _log[(P - v) % P] = x
                    out.append((P - v) % P)
        else:
            out.append(h1(name, x))
    return tuple(out)


def agree(*pairs):
    """Do value numbers agree?  Components in which a root of a non-square was taken only count if no other is left:
    laws such as sqrt(a)*sqrt(b) = sqrt(a*b) hold for non-negative reals but not for those."""
    comp = [all(a[i] == b[i] for a, b in pairs) for i in range(K)]
    if all(comp):
        return True
    clean = [i for i in range(K) if i not in DIRTY]
    if clean:
        return all(comp[i] for i in clean)
    return any(comp)
