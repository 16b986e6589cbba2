"""Abstract interpreter over the package's syntax trees.

Works on the abstract values of values.py only: no repository code is imported
or executed.  Function calls inside the package are inlined, configuration
branches are resolved when their condition is decided by the abstract state,
and the remaining branches partition the trace (bounded, see Oracle).
"""
from __future__ import annotations

import ast
import math
import os
from fractions import Fraction as Fr

from . import algebra as A
from .algebra import Poly, topoly, declare
from . import extattrs
from .values import *

# a literal that is the nearest double of a simple multiple of pi denotes that multiple
PIS = {math.pi: Poly.const(1), 2 * math.pi: Poly.const(2), math.pi / 2: Poly.const(Fr(1, 2))}
MAXDEPTH = 48
LOOPCAP = 6


class AnalysisBroken(Exception):
    """The analysis cannot anchor itself in the sources (error exit)."""


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class RaiseEx(Exception):
    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc


class PathAbort(Exception):
    def __init__(self, why):
        self.why = why


class SourceModule:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = path.endswith("__init__.py")


class Program:
    def __init__(self, root="/repo", pkg="ml4gw"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        base = os.path.join(root, pkg)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                with open(p) as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.mods[rel] = SourceModule(rel, os.path.relpath(p, root), ast.parse(src), src)
        if not self.mods:
            raise AnalysisBroken("no sources under %s" % base)
        # reference programs: interpreted by the same analysis, never executed
        refs = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refs")
        for f in sorted(os.listdir(refs)):
            if f.endswith(".py"):
                with open(os.path.join(refs, f)) as fh:
                    src = fh.read()
                self.mods["ref." + f[:-3]] = SourceModule("ref." + f[:-3], "ref/" + f, ast.parse(src), src)

    def functions(self):
        out = []
        for m in self.mods.values():
            if m.name.startswith("ref."):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((m.name, n))
        return out


class Frame:
    __slots__ = ("loc", "module", "parent", "func", "globals_", "cls", "yields", "isgen", "nonlocals", "self_")

    def __init__(self, module, parent=None, func=None, cls=None):
        self.loc = {}
        self.module, self.parent, self.func, self.cls = module, parent, func, cls
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.self_ = None


RNGNAMES = {"rng", "ri", "rp", "mn", "n", "u", "rand", "randn", "drop", "smp", "ch", "np", "inv"}


class Event:
    __slots__ = ("kind", "file", "func", "line", "data", "chain", "phase")

    def __init__(self, kind, file, func, line, data, chain, phase):
        self.kind, self.file, self.func, self.line = kind, file, func, line
        self.data, self.chain, self.phase = data, chain, phase

    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)

    def __repr__(self):
        return "<%s %s %r>" % (self.kind, self.where(), self.data)


class Oracle:
    """Enumerates branch decisions depth first (bounded trace partitioning)."""

    def __init__(self, maxpaths=128):
        self.stack = []   # list of [choice, n]
        self.pos = 0
        self.maxpaths = maxpaths
        self.paths = 0
        self.truncated = False

    def begin(self):
        self.pos = 0

    def choose(self, n):
        if self.pos < len(self.stack):
            c = self.stack[self.pos][0]
        else:
            self.stack.append([0, n])
            c = 0
        self.pos += 1
        return c

    def advance(self):
        self.paths += 1
        del self.stack[self.pos:]
        while self.stack and self.stack[-1][0] + 1 >= self.stack[-1][1]:
            self.stack.pop()
        if not self.stack:
            return False
        self.stack[-1][0] += 1
        if self.paths >= self.maxpaths:
            self.truncated = True
            return False
        return True


class Result:
    def __init__(self):
        self.value = None
        self.exc = None
        self.exc_loc = None
        self.aborted = None
        self.events = []
        self.facts = None
        self.decisions = []
        self.interp = None


class Globals:
    """Module-level state, interpreted once and shared between paths."""

    def __init__(self):
        self.modules = {}
        self.tensors = []
        self.containers = []


def simplest(v):
    """The rational a float literal of full precision was written for: 0.18229166666666666 is 35/192. Only a fraction
    far shorter than the digits counts; any other literal keeps its decimal value."""
    if len(repr(v).lstrip("-0.").replace(".", "").split("e")[0]) < 14 or v == 0:
        return v
    x = Fr(abs(v))
    u = Fr(math.ulp(v)) / 2

    def between(lo, hi):
        n = -(-lo.numerator // lo.denominator)
        if n <= hi:
            return Fr(n)
        n -= 1
        return n + 1 / between(1 / (hi - n), 1 / (lo - n))
    q = between(x - u, x + u)
    return (q if v > 0 else -q) if q.numerator * q.denominator < 10 ** 11 else v


def _literal(x):
    """A known string or integer, else None."""
    if isinstance(x, Num):
        c = x.p.cval() if x.kind == "int" else None
        return int(c) if c is not None and c.denominator == 1 else None
    return x if isinstance(x, (str, int)) else None


class Interp:
    def __init__(self, prog, shared=None, opts=None):
        self.prog = prog
        self.shared = shared if shared is not None else Globals()
        self.opts = opts or {}
        self.facts = A.Facts()
        self.memo = {}
        self.events = []
        self.frames = []
        self.stack = []            # (file, qual, line)
        self.nodes = {}
        self.oracle = None
        self.phase = "setup"
        self.fresh = 0
        self.decisions = []
        self.tops = []
        self.functions_seen = set()
        self.subjects = []
        self.rngcount = 0
        self.witnesses = {}
        self.callsites = 0
        self.steps = 0
        self.module_loading = 0
        self.grad_disabled = 0
        self.default_dtype = "f32"
        from . import torchmodel
        self.T = torchmodel
        self.loadable = {}

    # -- bookkeeping -------------------------------------------------------
    def here(self):
        return self.stack[-1] if self.stack else ("?", "?", 0)

    def ev(self, kind, **data):
        f, q, l = self.here()
        chain = tuple("%s:%d" % (s[1], s[2]) for s in self.stack)
        e = Event(kind, f, q, l, data, chain, self.phase)
        self.events.append(e)
        return e

    def top(self, why, *deps):
        ns = []
        for d in deps:
            ns.extend(self.deps(d))
        f, q, l = self.here()
        self.tops.append((f, q, l, why))
        return Top(why, ns)

    def deps(self, v, depth=0):
        if isinstance(v, Tensor):
            return [self.nd(v)]
        if isinstance(v, Top):
            return list(v.deps)
        if isinstance(v, Node):
            return [v]
        if isinstance(v, Num):
            return list(poly_nodes(v.p))
        if isinstance(v, Cond):
            return list(v.deps)
        if depth > 3:
            return []
        if isinstance(v, PyList):
            return [n for x in v.items for n in self.deps(x, depth + 1)]
        if isinstance(v, tuple):
            return [n for x in v for n in self.deps(x, depth + 1)]
        if isinstance(v, PyDict):
            return [n for x in v.d.values() for n in self.deps(x, depth + 1)]
        return []

    def freshname(self, base):
        if base in RNGNAMES:
            self.rngcount += 1
            return "%s#r%d" % (base, self.rngcount)
        self.fresh += 1
        return "%s#%d" % (base, self.fresh)

    # -- nodes / tensors ---------------------------------------------------
    def node(self, op, args=(), attr=None, shape=None, dtype=None, device=None, unique=False):
        if not unique:
            try:
                k = (op, tuple(a.uid if isinstance(a, Node) else a for a in args), attr, dtype)
                if self.grad_disabled:
                    k += ("nograd",)
                n = self.nodes.get(k)
                if n is not None:
                    return n
            except TypeError:
                k = None
        else:
            k = None
        n = Node(op, tuple(args), attr, shape, dtype, device, self.here())
        if self.grad_disabled:
            n.memo["nograd"] = True
        if k is not None:
            self.nodes[k] = n
        return n

    def tensor(self, op, args=(), attr=None, shape=None, dtype=None, device=None, roots=(), unique=False):
        args = tuple(self.asnode(a) for a in args)
        n = self.node(op, args, attr, shape, dtype, device, unique)
        return Tensor(Storage(roots), n, shape, dtype, device)

    def viewof(self, t, op, attr, shape, dtype=None):
        n = self.node(op, (self.nd(t),), attr, shape, dtype or t.dtype, t.device)
        base = t.base if t.base is not None else t
        chain = (t.view or ()) + ((op, attr, shape),)
        return Tensor(t.store, n, shape, dtype or t.dtype, t.device, base=base, view=chain)

    def nd(self, t):
        if t.base is not None and t.version != t.store.version:
            n = self.nd(t.base)
            for op, attr, shape in t.view:
                n = self.node(op, (n,), attr, shape, t.dtype, t.device)
            t._node = n
            t.version = t.store.version
        return t._node

    def write(self, t, op, new, extra=None):
        """In-place update of tensor t with value-graph node `new`."""
        self.ev("inplace", op=op, roots=frozenset(t.store.roots), tensor=t, new=new, extra=extra,
                deps=new.args)
        t.store.version += 1
        t.store.writes.append(self.here())
        if t.base is None:
            t._node = new
        else:
            bn = t.base._node
            t.base._node = self.node("update", (bn, new), t.view, t.base.shape, t.base.dtype, t.base.device)
            t.base.version = t.store.version
            t._node = new
        t.version = t.store.version

    def asnode(self, v):
        if isinstance(v, Node):
            return v
        if isinstance(v, Tensor):
            return self.nd(v)
        if isinstance(v, bool):
            return self.node("num", (), Poly.const(int(v)), (), "pybool")
        if isinstance(v, int):
            return self.node("num", (), Poly.const(v), (), "pyint")
        if isinstance(v, Num):
            return self.node("num", (), v.p, (), "pyfloat" if v.kind == "float" else "pyint")
        if isinstance(v, complex):
            p = Poly.const(v.real) + Poly.const(v.imag) * Poly.atom(A.I_ATOM)
            return self.node("num", (), p, (), "pycomplex")
        if isinstance(v, Top):
            return self.node("top", tuple(sorted(v.deps, key=lambda n: n.uid)), v.why, None)
        if isinstance(v, Cond):
            return self.node("cond", tuple(sorted(v.deps, key=lambda n: n.uid)), (v.kind, v.p, v.neg), ())
        if isinstance(v, (PyList, tuple)):
            items = v.items if isinstance(v, PyList) else v
            return self.node("list", tuple(self.asnode(x) for x in items))
        if v is None:
            return self.node("none")
        return self.node("opaque", (), repr(v))

    # -- truth -------------------------------------------------------------
    def same(self, p):
        """decide p == 0: True / False / None"""
        p = topoly(p)
        if p.is_zero():
            return True
        c = p.cval()
        if c is not None:
            return False
        e = A.equal(p, Poly.const(0))
        if e:
            return True
        for f in self.facts.facts:
            if f == p or f == -p:
                break
        if self.facts.facts or True:
            if self.facts.entails_ge0(p):
                if self.facts.entails_gt0(p):
                    return False
                if self.facts.entails_ge0(-p):
                    return True
            elif self.facts.entails_gt0(-p):
                return False
        return None

    def differ(self, p, q, broadcast=False):
        """Sizes of the inputs, consistent with everything assumed on this path, for which p and q differ (and, when
        broadcasting, neither is 1); None when no such sizes are found."""
        p, q = topoly(p), topoly(q)
        polys = [p, q] + self.facts.facts + self.facts.neq
        syms = set()
        if not all(A.plain_sizes(x, syms) for x in polys[:2]):
            return None
        key = (p, q, broadcast, len(polys))
        if key in self.witnesses:
            return self.witnesses[key]
        wit = None
        grow = True
        facts = []
        while grow:                      # facts that mention the symbols, transitively
            grow = False
            for x in polys[2:]:
                if x in facts:
                    continue
                s2 = set()
                ok = A.plain_sizes(x, s2)
                if s2 & syms or not ok:
                    facts.append(x)
                    if not s2 <= syms:
                        syms |= s2
                        grow = True
        neq = set(self.facts.neq)
        import random
        rnd = random.Random(7)
        names = sorted(syms)
        for _ in range(120):
            env = {n: int(A.SYM[n]["lo"] or 0) + rnd.choice((0, 1, 2, 3, 4, 6, 7, 11, 20, 48, 105, 1001)) for n in names}
            if any(A.SYM[n].get("hi") is not None and v > A.SYM[n]["hi"] for n, v in env.items()):
                continue
            vs = [A.numeric(x, env) for x in facts]
            if any(v is None or v < -1e-9 or (x in neq and abs(v) < 1e-9) for v, x in zip(vs, facts)):
                continue
            a, b = A.numeric(p, env), A.numeric(q, env)
            if a is None or b is None or a < 0 or b < 0 or abs(a - b) < 0.5 or broadcast and min(abs(a - 1), abs(b - 1)) < 0.5:
                continue
            wit = env
            break
        self.witnesses[key] = wit
        return wit

    def clash(self, p, q, what):
        if self.same(topoly(p) - topoly(q)) is False or self.differ(p, q):
            self.err("RuntimeError", "sizes %s and %s in %s" % (A.show(topoly(p)), A.show(topoly(q)), what))

    def ge0(self, p):
        p = topoly(p)
        c = p.cval()
        if c is not None:
            return c >= 0
        if self.facts.entails_ge0(p):
            return True
        if self.facts.entails_gt0(-p):
            return False
        v = A.numeric(p)
        if v is not None and abs(v) > 1e-9:
            return v > 0
        return None

    def gt0(self, p):
        r = self.ge0(-topoly(p))
        return None if r is None else not r

    def decide(self, c):
        """Try to decide a Cond without branching."""
        if c.kind == "ge":
            r = self.ge0(c.p)
        elif c.kind == "gt":
            r = self.gt0(c.p)
        elif c.kind == "eq":
            r = self.same(c.p)
        else:
            r = None
        if r is None:
            k = c.key()
            if k in self.memo:
                r = self.memo[k]
        return None if r is None else (r != c.neg)

    def truth(self, v, what=None):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, complex)):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.items) > 0
        if isinstance(v, PyDict):
            return len(v.d) > 0
        if isinstance(v, AbsSeq):
            v = Cond("gt", v.length)
        if isinstance(v, Num):
            v = Cond("eq", v.p, True)
        if isinstance(v, Tensor):
            n = self.nd(v)
            if n.op == "num" and n.attr is not None and isinstance(n.attr, Poly):
                v = Cond("eq", n.attr, True, [n])
            else:
                v = Cond("opaque", ("t", n.uid), False, [n])
        if isinstance(v, Cond):
            r = self.decide(v)
            if r is not None:
                return r
            return self.branch(v)
        if isinstance(v, (Func, Bound, Obj, Cls, Ext, ModV, ExtBound, Partial)):
            return True
        if isinstance(v, Top):
            return self.branch(Cond("opaque", ("top", self.freshname("c")), False, v.deps))
        if isinstance(v, AStr):
            return self.branch(Cond("opaque", ("str", self.freshname("c"))))
        return self.branch(Cond("opaque", ("u", self.freshname("c"))))

    def branch(self, c):
        if self.oracle is None:
            return True
        ch = self.oracle.choose(2)
        r = (ch == 0)
        raw = r != c.neg
        self.memo[c.key()] = raw
        self.decisions.append((self.here(), c, r))
        self.assume(c.kind, c.p, raw)
        self.ev("branch", cond=c, taken=r)
        return r

    def assume(self, kind, p, raw):
        if kind == "ge":
            self.facts.add_ge0(p if raw else (-p - 1 if A.is_int(p) else -p))
        elif kind == "gt":
            self.facts.add_ge0((p - 1 if A.is_int(p) else p) if raw else -p)
        elif kind == "eq" and raw:
            self.facts.add_ge0(p)
            self.facts.add_ge0(-p)
        elif kind == "eq":
            self.facts.neq.append(p)

    # -- modules -----------------------------------------------------------
    def module(self, name):
        g = self.shared.modules.get(name)
        if g is not None:
            return g
        sm = self.prog.mods.get(name)
        if sm is None:
            raise AnalysisBroken("no module %s in the package" % name)
        g = {}
        self.shared.modules[name] = g
        g["__name__"] = name
        g["__file__"] = AStr("__file__")
        fr = Frame(name)
        fr.loc = g
        saved = (self.oracle, self.phase, self.facts, self.memo, self.stack)
        self.oracle, self.phase, self.facts, self.memo = None, "import", A.Facts(), {}
        self.stack = [(sm.path, "<module>", 0)]
        self.frames.append(fr)
        try:
            self.block(sm.tree.body, fr)
        except RaiseEx as e:
            raise AnalysisBroken("module %s raises at import: %r" % (name, e.exc))
        finally:
            self.frames.pop()
            self.oracle, self.phase, self.facts, self.memo, self.stack = saved
        for k, v in list(g.items()):
            self._tag_global(v, "global:%s.%s" % (name, k), 0)
        return g

    def _tag_global(self, v, root, depth):
        if depth > 3:
            return
        if isinstance(v, Tensor):
            if not any(r.startswith("global:") for r in v.store.roots):
                v.store.roots.add(root)
            self.shared.tensors.append((v, v._node, v.version))
        elif isinstance(v, PyList):
            v.roots.add(root)
            self.shared.containers.append((v, list(v.items)))
            for x in v.items:
                self._tag_global(x, root, depth + 1)
        elif isinstance(v, PyDict):
            v.roots.add(root)
            self.shared.containers.append((v, dict(v.d)))
            for x in v.d.values():
                self._tag_global(x, root, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self._tag_global(x, root, depth + 1)
        elif isinstance(v, Obj):
            v.roots.add(root)

    def restore_globals(self):
        for t, n, ver in self.shared.tensors:
            t._node = n
            t.store.version = ver
            t.version = ver
        for c, content in self.shared.containers:
            if isinstance(c, PyList):
                c.items = list(content)
            else:
                c.d = dict(content)

    def lookup_path(self, dotted):
        """Resolve 'ml4gw.mod.Class.method' in the package."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.prog.mods:
                v = None
                g = self.module(m)
                rest = parts[i:]
                if not rest:
                    return ModV(m)
                if rest[0] not in g:
                    raise AnalysisBroken("anchor %s: no %s in %s" % (dotted, rest[0], m))
                v = g[rest[0]]
                for r in rest[1:]:
                    if isinstance(v, Cls):
                        c, v2 = v.lookup(r)
                        if v2 is None:
                            raise AnalysisBroken("anchor %s: no attribute %s" % (dotted, r))
                        v = v2
                    else:
                        raise AnalysisBroken("anchor %s: cannot resolve %s" % (dotted, r))
                return v
        raise AnalysisBroken("anchor %s not found" % dotted)

    def import_(self, name, fr):
        if name in self.prog.mods:
            return ModV(name)
        return Ext(canon(name))

    # -- statements --------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 400000:
            raise PathAbort("step budget")
        if self.stack:
            f, q, _ = self.stack[-1]
            self.stack[-1] = (f, q, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.top("statement %s" % type(s).__name__)
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            new = self.aug(op, cur, self.expr(s.value, fr))
            if new is not cur:
                self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.aug(op, cur, self.expr(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            idx = self.index_expr(t.slice, fr)
            cur = self.getitem(o, idx)
            val = self.expr(s.value, fr)
            if isinstance(o, Tensor):
                new = self.binop(op, cur, val)
                self.setitem(o, idx, new, aug=op)
            else:
                new = self.aug(op, cur, val)
                self.setitem(o, idx, new)
        else:
            self.top("augassign target")

    def aug(self, op, cur, val):
        if isinstance(cur, Tensor):
            return self.T.inplace_binop(self, op, cur, val)
        if isinstance(cur, PyList) and op == "add":
            items = self.tolist(val)
            self.container_write(cur, "+=")
            if items is None:
                cur.items.append(self.top("list += unknown", val))
            else:
                cur.items.extend(items)
            return cur
        if isinstance(cur, PyDict) and op == "or":
            self.container_write(cur, "|=")
            if isinstance(val, PyDict):
                cur.d.update(val.d)
            return cur
        return self.binop(op, cur, val)

    def container_write(self, c, op):
        if c.roots:
            self.ev("container_write", op=op, roots=frozenset(c.roots), obj=c)

    def s_If(self, s, fr):
        if self.truth(self.expr(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            if not self.truth(self.expr(s.test, fr)):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > LOOPCAP * 4:
                raise PathAbort("while bound at %s:%s" % self.here()[0::2])
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def s_For(self, s, fr):
        it = self.expr(s.iter, fr)
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def iterate(self, it):
        """Yield abstract elements; symbolic lengths unroll to 0 or 2 generic rounds."""
        items = self.tolist(it)
        if items is not None:
            for x in items:
                yield x
            return
        if isinstance(it, AbsSeq):
            nonempty = self.truth(Cond("gt", it.length))
            if not nonempty:
                return
            self.ev("absloop", length=it.length)
            for r in range(2):
                nm = self.freshname("i")
                p = declare(nm, integer=True, lo=0)
                self.facts.add_ge0(it.length - 1 - p)
                self.ev("round", index=p, length=it.length)
                yield it.elem(p)
            return
        if isinstance(it, Tensor) and it.shape:
            n = it.shape[0].p
            if not self.truth(Cond("gt", n)):
                return
            self.ev("absloop", length=n)
            for r in range(2):
                nm = self.freshname("i")
                p = declare(nm, integer=True, lo=0)
                self.facts.add_ge0(n - 1 - p)
                self.ev("round", index=p, length=n)
                yield self.getitem(it, mknum(p, "int"))
            return
        if isinstance(it, Obj) and it.cls is not None:
            c, f = it.cls.lookup("__iter__")
            if f is not None:
                r = self.call(Bound(f, it), [], {})
                yield from self.iterate(r)
                return
        self.ev("absloop", length=None)
        d = self.deps(it)
        for r in range(2):
            yield self.top("element of unknown iterable", *d)

    def choose(self, items, i, what):
        """items[i] for a run-time index: partition the trace on which element is read (bounded)."""
        p = i.p if isinstance(i, Num) else None
        if isinstance(i, Tensor) and i.shape is not None and len(i.shape) == 0:
            p = Poly.atom(("item", self.nd(i)))
        if p is None or not 1 <= len(items) <= 4:
            return self.top(what, *list(items))
        for k in range(len(items) - 1):
            if self.truth(Cond("eq", p - k)):
                return items[k]
        return items[-1]

    def tolist(self, v):
        if isinstance(v, PyList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyDict):
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Tensor):
            if v.shape is not None and len(v.shape) > 0:
                n = v.shape[0].p.cval()
                if n is not None and n <= 64:
                    return [self.getitem(v, i) for i in range(int(n))]
                return None
            return None
        if isinstance(v, Obj) and v.ext in ("torch.nn.ModuleList", "torch.nn.Sequential", "torch.nn.ParameterList"):
            return list(v.info["items"])
        if isinstance(v, Obj) and v.cls is not None and "items" in v.info:
            return list(v.info["items"])
        if isinstance(v, Obj) and v.ext == "nparr_str" and v.info["whole"]:
            return list(v.info["names"])
        return None

    def s_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.expr(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise RaiseEx(Exc("reraise"), self.here())
        v = self.expr(s.exc, fr)
        if isinstance(v, Ext):
            v = Exc(v.name.split(".")[-1])
        elif isinstance(v, Cls):
            v = self.call(v, [], {})
        if isinstance(v, Obj):
            v = Exc(v.clsname().split(".")[-1], cls=v.cls)
        if not isinstance(v, Exc):
            v = Exc("unknown")
        self.ev("raise", exc=v)
        raise RaiseEx(v, self.here())

    def s_Assert(self, s, fr):
        if not self.truth(self.expr(s.test, fr)):
            v = Exc("AssertionError")
            self.ev("raise", exc=v)
            raise RaiseEx(v, self.here())

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, fr)
                k = self.index_expr(t.slice, fr)
                if isinstance(o, (PyDict, PyList)):
                    self.container_write(o, "del")
                    try:
                        if isinstance(o, PyDict):
                            o.d.pop(k, None)
                        elif isinstance(k, int):
                            del o.items[k]
                    except (TypeError, IndexError):
                        pass
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, fr)
                if isinstance(o, Obj):
                    self.attr_write(o, t.attr, None)
                    o.attrs.pop(t.attr, None)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                fr.loc[a.asname] = self.import_(a.name, fr)
            else:
                fr.loc[a.name.split(".")[0]] = self.import_(a.name.split(".")[0], fr)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            sm = self.prog.mods[fr.module]
            parts = fr.module.split(".")
            if not sm.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                if base in self.prog.mods:
                    g = self.module(base)
                    for k, v in g.items():
                        if not k.startswith("_"):
                            fr.loc[k] = v
                continue
            tgt = a.asname or a.name
            if base in self.prog.mods:
                g = self.module(base)
                if a.name in g:
                    fr.loc[tgt] = g[a.name]
                elif base + "." + a.name in self.prog.mods:
                    fr.loc[tgt] = ModV(base + "." + a.name)
                else:
                    # circular import or missing
                    fr.loc[tgt] = LazyImport(base, a.name)
            else:
                fr.loc[tgt] = Ext(canon(base + "." + a.name))

    def s_FunctionDef(self, s, fr):
        kind = "func"
        qual = s.name
        if fr.cls is not None and fr.func is None:
            qual = fr.cls.name + "." + s.name
        elif fr.func is not None:
            qual = fr.func.qual + "." + s.name
        f = Func(s, fr.module, fr if fr.func is not None else None,
                 fr.cls if fr.func is None else None, kind, qual)
        f.defaults = [self.expr(d, fr) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else self.expr(d, fr) for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr, s.name)
        fr.loc[s.name] = v

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, fr, name):
        txt = ast.unparse(d)
        if txt == "property" or txt.endswith("cached_property"):
            return Property(v)
        if txt.endswith(".setter"):
            p = fr.loc.get(name)
            return Property(p.fget if isinstance(p, Property) else None, v)
        if txt == "staticmethod":
            v.kind = "static"
            return v
        if txt == "classmethod":
            v.kind = "class"
            return v
        last = txt.split("(")[0].split(".")[-1]
        if last in ("abstractmethod", "wraps", "jaxtyped", "beartype", "override", "overload"):
            return v
        if last in ("no_grad", "inference_mode"):
            v.kind = "nograd" if v.kind == "func" else v.kind
            return v
        if last in ("lru_cache", "cache"):
            if isinstance(v, Func):
                v.kind = "cached"
            return v
        dv = self.expr(d, fr)
        if isinstance(dv, (Func, Bound)):
            return self.call(dv, [v], {})
        self.top("decorator %s" % txt)
        return v

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.expr(b, fr)
            if isinstance(v, LazyImport):
                v = self.lazy(v)
            if isinstance(v, (Cls, Ext)):
                bases.append(v)
            else:
                bases.append(Ext("object"))
        c = Cls(s.name, fr.module, s, bases)
        cf = Frame(fr.module, fr, None, c)
        cf.loc = c.attrs
        self.frames.append(cf)
        try:
            self.block(s.body, cf)
        finally:
            self.frames.pop()
        v = c
        for d in reversed(s.decorator_list):
            txt = ast.unparse(d).split("(")[0]
            if txt.split(".")[-1] == "dataclass":
                c.attrs["__dataclass__"] = [n.target.id for n in s.body if isinstance(n, ast.AnnAssign)]
            else:
                self.top("class decorator %s" % txt)
        fr.loc[s.name] = v

    def s_With(self, s, fr):
        nog = 0
        for it in s.items:
            v = self.expr(it.context_expr, fr)
            if isinstance(v, Obj) and v.ext in ("torch.no_grad", "torch.inference_mode", "torch.autograd.no_grad"):
                nog += 1
            if isinstance(v, Obj) and v.cls is not None:
                c, f = v.cls.lookup("__enter__")
                if f is not None:
                    v = self.call(Bound(f, v), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.grad_disabled += nog
        try:
            self.block(s.body, fr)
        finally:
            self.grad_disabled -= nog

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except RaiseEx as e:
            handled = False
            for h in s.handlers:
                names = None
                if h.type is not None:
                    tv = self.expr(h.type, fr)
                    tv = self.tolist(tv) if not isinstance(tv, (Ext, Cls)) else [tv]
                    names = [(t.name.split(".")[-1] if isinstance(t, (Ext, Cls)) else None) for t in (tv or [])]
                if names is None or None in names or exc_matches(e.exc, names):
                    if h.name:
                        fr.loc[h.name] = e.exc
                    handled = True
                    try:
                        self.block(h.body, fr)
                    except RaiseEx as e2:
                        if e2.exc.name == "reraise":
                            raise RaiseEx(e.exc, e.loc)
                        raise
                    break
            if not handled:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def s_Match(self, s, fr):
        subj = self.expr(s.subject, fr)
        for case in s.cases:
            p = case.pattern
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    fr.loc[p.name] = subj
                ok = True
            elif isinstance(p, ast.MatchValue):
                ok = self.truth(self.compare("Eq", subj, self.expr(p.value, fr)))
            elif isinstance(p, ast.MatchSingleton):
                ok = self.truth(self.compare("Is", subj, p.value))
            elif isinstance(p, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in p.patterns):
                ok = any(self.truth(self.compare("Eq", subj, self.expr(q.value, fr))) for q in p.patterns)
            else:
                ok = self.truth(self.top("match pattern"))
            if ok and (case.guard is None or self.truth(self.expr(case.guard, fr))):
                self.block(case.body, fr)
                return

    # -- assignment --------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                g = self.module(fr.module)
                if not self.shared_importing():
                    self.ev("global_write", name="%s.%s" % (fr.module, t.id))
                g[t.id] = v
            elif t.id in fr.nonlocals:
                p = fr.parent
                while p is not None and t.id not in p.loc:
                    p = p.parent
                (p or fr).loc[t.id] = v
            else:
                fr.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            self.setitem(o, self.index_expr(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def shared_importing(self):
        return self.phase == "import"

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.tolist(v)
        if items is None and isinstance(v, Tensor) and v.shape is not None and len(v.shape) >= 1 and not star:
            # symbolic leading dim unpacked into a fixed number of names
            self.facts.add_ge0(v.shape[0].p - len(elts))
            self.facts.add_ge0(-(v.shape[0].p - len(elts)))
            items = [self.getitem(v, i) for i in range(len(elts))]
        if items is None and isinstance(v, AbsSeq) and not star:
            items = [v.elem(Poly.const(i)) for i in range(len(elts))]
        if items is None:
            for e in elts:
                self.assign(e, self.top("unpack unknown", *self.deps(v)), fr)
            return
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.err("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, PyList(items[i:len(items) - after]), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - after:] if after else []):
                self.assign(e, x, fr)
            return
        if len(items) != len(elts):
            self.err("ValueError", "cannot unpack %d values into %d names" % (len(items), len(elts)))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def err(self, name, msg):
        """The analysed program itself raises here."""
        x = Exc(name, msg)
        self.ev("error", exc=x, msg=msg)
        raise RaiseEx(x, self.here())

    # -- names -------------------------------------------------------------
    def name(self, n, fr):
        if n in fr.globals_:
            return self.module(fr.module).get(n)
        f = fr
        while f is not None:
            if n in f.loc and not (f is not fr and f.cls is not None and f.func is None):
                v = f.loc[n]
                return self.lazy(v) if isinstance(v, LazyImport) else v
            f = f.parent
        g = self.module(fr.module)
        if n in g:
            v = g[n]
            return self.lazy(v) if isinstance(v, LazyImport) else v
        if n in BUILTINS:
            return Ext("builtins." + n)
        if n in EXCNAMES:
            return Ext("builtins." + n)
        if self.phase != "import":
            self.ev("unbound", name=n)
            raise RaiseEx(Exc("NameError", n), self.here())
        return self.top("unbound name %s" % n)

    def lazy(self, v):
        g = self.module(v.base)
        if v.name in g:
            return g[v.name]
        return Top("lazy import %s.%s" % (v.base, v.name))

    # -- expressions -------------------------------------------------------
    def expr(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.top("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v in (float("inf"), float("-inf")):
                return Num(Poly.atom(("s", "inf")), "float")
            if v in PIS:
                return Num(Poly.atom(("s", "pi")) * PIS[v], "float")
            return Num(Poly.const(simplest(v)), "float")
        if isinstance(v, complex):
            return Num(Poly.const(v.imag) * Poly.atom(A.I_ATOM), "complex")
        if isinstance(v, bytes):
            return AStr("bytes")
        return v

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.make_set(self.elts(e.elts, fr))

    def make_set(self, items):
        """A set of the items; integers come in the order of the interpreter's hash table, as they do at run time."""
        out = []
        for x in items:
            if not any(self.compare("Eq", x, y) is True for y in out):
                out.append(x)
        ks = [x if isinstance(x, int) else x.p.cval() if isinstance(x, Num) else None for x in out]
        if len(out) > 1 and all(k is not None and k == int(k) for k in ks):
            ks = [int(k) for k in ks]
            out = [out[ks.index(k)] for k in list(set(ks))]
        return PyList(out, "set")

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, fr)
                items = self.tolist(v)
                if items is None:
                    out.append(self.top("starred unknown", v))
                else:
                    out.extend(items)
            else:
                out.append(self.expr(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.expr(v, fr)
                if isinstance(x, PyDict):
                    d.update(x.d)
                else:
                    self.top("dict splat")
            else:
                d[self.hashable(self.expr(k, fr))] = self.expr(v, fr)
        return PyDict(d)

    def hashable(self, k):
        if isinstance(k, Num):
            return ("num", k.p)
        try:
            hash(k)
            return k
        except TypeError:
            return repr(k)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.expr(v.value, fr)
                x = _literal(x)
                if x is not None and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                else:
                    parts.append(None)
        if any(p is None for p in parts):
            return AStr("fstring")
        return "".join(parts)

    def e_FormattedValue(self, e, fr):
        self.expr(e.value, fr)
        return AStr("fmt")

    def e_IfExp(self, e, fr):
        return self.expr(e.body if self.truth(self.expr(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (Cond, Num, Tensor, Top)) else False
            if not isand and t:
                return v if not isinstance(v, Cond) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Cond):
                return v.inv()
            if isinstance(v, (Tensor, Top)):
                return not self.truth(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, int):
                return -v
            if isinstance(v, Num):
                return Num(-v.p, v.kind)
            if isinstance(v, Tensor):
                return self.T.call_op(self, "neg", [v], {})
            return self.top("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Tensor):
                return self.T.call_op(self, "bitwise_not", [v], {})
            if isinstance(v, int):
                return ~v
            return self.top("invert", v)

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        if isinstance(e, ast.BinOp):
            self.mark(e)
        return self.binop(BINOPS[type(e.op)], a, b)

    def mark(self, e):
        if self.stack:
            f, q, _ = self.stack[-1]
            self.stack[-1] = (f, q, e.lineno)

    def binop(self, op, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.T.binop(self, op, a, b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return self.numop(op, a, b, na, nb)
        if op == "add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
                return AStr("concat")
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(a.items + b.items)
        if op == "mul":
            if isinstance(b, PyList) or (isinstance(b, (tuple, str)) and not isinstance(a, str)):
                a, b = b, a
            if isinstance(a, PyList) and isinstance(b, int):
                return PyList(a.items * b)
            if isinstance(a, (tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(a, (PyList, tuple)) and isinstance(b, Num):
                items = a.items if isinstance(a, PyList) else a
                if len(items) == 1:
                    return AbsSeq(lambda i, x=items[0]: x, b.p)
        if op == "mod" and isinstance(a, (str, AStr)):
            vs = tuple(_literal(x) for x in (b if isinstance(b, tuple) else (b,)))
            if isinstance(a, str) and None not in vs:
                try:
                    return a % vs
                except (TypeError, ValueError):
                    pass
            return AStr("fmt")
        if op == "sub" and isinstance(a, PyList) and isinstance(b, PyList):
            try:
                return PyList([x for x in a.items if x not in b.items], a.kind)
            except Exception:
                pass
        if op in ("or", "and") and isinstance(a, PyList) and isinstance(b, PyList):
            if op == "or":
                return PyList(list(dict.fromkeys(a.items + b.items)), a.kind)
            return PyList([x for x in a.items if x in b.items], a.kind)
        if op == "or" and isinstance(a, PyDict) and isinstance(b, PyDict):
            return PyDict({**a.d, **b.d})
        if op == "or":      # type unions in annotations / isinstance
            if isinstance(a, (Ext, Cls, tuple)) or a is None:
                ta = a if isinstance(a, tuple) else (a,)
                tb = b if isinstance(b, tuple) else (b,)
                return ta + tb
        if op == "truediv" and isinstance(a, Obj) and a.ext == "pathlib.Path":
            return a
        for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Obj) and x.cls is not None:
                c, f = x.cls.lookup(nm % op)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        if a is None or b is None or isinstance(a, (PyList, PyDict, str, Func)) and not isinstance(b, (Top, AStr)):
            if not isinstance(a, Top) and not isinstance(b, Top) and self.phase != "import":
                self.err("TypeError", "unsupported operand types for %s: %s, %s" % (op, tname(a), tname(b)))
        return self.top("binop %s" % op, a, b)

    def num(self, v):
        if isinstance(v, bool):
            return Poly.const(int(v))
        if isinstance(v, int):
            return Poly.const(v)
        if isinstance(v, Num):
            return v.p
        if isinstance(v, Cond):
            return None
        return None

    def numop(self, op, a, b, pa, pb):
        ka, kb = kindof(a), kindof(b)
        kind = "int" if ka == "int" and kb == "int" else ("complex" if "complex" in (ka, kb) else
                                                         ("float" if "float" in (ka, kb) else None))
        try:
            if op == "add":
                r = pa + pb
            elif op == "sub":
                r = pa - pb
            elif op == "mul":
                r = pa * pb
            elif op == "truediv":
                if pb.is_zero():
                    self.err("ZeroDivisionError", "division by literal zero")
                r = pa / pb
                kind = "complex" if kind == "complex" else "float"
            elif op == "floordiv":
                r = A.idiv(pa, pb)
            elif op == "mod":
                r = A.mod(pa, pb)
            elif op == "pow":
                e = pb.cval()
                if e is not None:
                    if abs(e) > 64:
                        r = Poly.atom(("fn", "pow", pa, pb)) if pa.cval() is None else A.ppow(pa, e)
                    else:
                        r = A.ppow(pa, e)
                    if e.denominator != 1 or e < 0:
                        kind = "float"
                else:
                    r = Poly.atom(("fn", "pow", pa, pb))
                    kind = kind or "float"
            elif op in ("lshift", "rshift", "and", "or", "xor"):
                ca, cb = pa.cval(), pb.cval()
                if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
                    import operator as O
                    return {"lshift": O.lshift, "rshift": O.rshift, "and": O.and_, "or": O.or_,
                            "xor": O.xor}[op](int(ca), int(cb))
                if op == "lshift" and cb is not None:
                    r = pa * Poly.const(2 ** int(cb))
                elif op == "rshift" and cb is not None:
                    r = A.idiv(pa, Poly.const(2 ** int(cb)))
                else:
                    return Num(Poly.atom(("intfn", op, pa, pb)), "int")
            else:
                return self.top("numop " + op)
        except A.Blowup:
            r = Poly.atom(("fn", "big:" + op, Poly.atom(("h", hash(pa))), Poly.atom(("h", hash(pb)))))
        return mknum(r, kind)

    def e_Compare(self, e, fr):
        l = self.expr(e.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.expr(c, fr)
            v = self.compare(type(op).__name__, l, r)
            if len(e.ops) == 1:
                return v
            res = v
            if not isinstance(v, Tensor) and not self.truth(v):
                return False
            l = r
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            if isinstance(r, bool):
                return r if op == "Is" else not r
            return r if op == "Is" else r.inv()
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op == "In" else not r
            return r.inv() if op == "NotIn" else r
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) and op in ("Eq", "NotEq"):
                return op == "NotEq"
            return self.T.compare(self, op, a, b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            d = na - nb
            c = {"Eq": Cond("eq", d), "NotEq": Cond("eq", d, True), "Lt": Cond("gt", -d), "LtE": Cond("ge", -d),
                 "Gt": Cond("gt", d), "GtE": Cond("ge", d)}[op]
            inf = ("s", "inf")
            if inf in d.atoms():
                if op in ("Eq", "NotEq"):
                    r = na == nb
                    return r if op == "Eq" else not r
                s = d.t.get(((inf, Fr(1)),), 0)
                if s:
                    return {"Lt": s < 0, "LtE": s < 0, "Gt": s > 0, "GtE": s > 0}[op]
            c.deps = frozenset(poly_nodes(d))
            r = self.decide(c)
            return c if r is None else r
        if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, AStr) or isinstance(b, AStr):
            return Cond("opaque", ("cmp", op, _ck(a), _ck(b)), False, self.deps(a) + self.deps(b))
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return r if op == "Eq" else not r
            return r if op == "Eq" else r.inv()
        if isinstance(a, PyList) and isinstance(b, PyList) and a.kind == "set":
            try:
                sa, sb = set(a.items), set(b.items)
                return {"Lt": sa < sb, "LtE": sa <= sb, "Gt": sa > sb, "GtE": sa >= sb}[op]
            except TypeError:
                pass
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 1:
            return self.compare(op, a[0], b[0])
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if (a is None or b is None) and self.phase != "import":
            self.err("TypeError", "ordering comparison between %s and %s" % (tname(a), tname(b)))
        return Cond("opaque", ("cmp", op, _ck(a), _ck(b)), False, self.deps(a) + self.deps(b))

    def equal(self, a, b):
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            x = a.items if isinstance(a, PyList) else a
            y = b.items if isinstance(b, PyList) else b
            if isinstance(a, tuple) != isinstance(b, tuple):
                if getattr(a, "kind", None) != "size" and getattr(b, "kind", None) != "size":
                    return False
            if len(x) != len(y):
                return False
            if isinstance(a, PyList) and a.kind == "set":
                return set(map(repr, x)) == set(map(repr, y))
            pend = None
            for u, v in zip(x, y):
                r = self.compare("Eq", u, v)
                if isinstance(r, Tensor):
                    r = Cond("opaque", ("t", self.nd(r).uid), False, [self.nd(r)])
                if isinstance(r, bool):
                    if not r:
                        return False
                else:
                    if not self.truth(r):
                        return False
            return True
        if isinstance(a, (Ext, Cls, Obj, Func, Bound, ModV)) or isinstance(b, (Ext, Cls, Obj, Func, Bound, ModV)):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.name == b.name
            if isinstance(a, Bound) and isinstance(b, Bound):
                return a.func is b.func and a.self is b.self
            return a is b
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d):
                return False
            return all(self.truth(self.compare("Eq", a.d[k], b.d[k])) for k in a.d)
        try:
            return bool(a == b)
        except Exception:
            return Cond("opaque", ("eq", _ck(a), _ck(b)))

    def identical(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            t = a if isinstance(a, Top) else b
            return Cond("opaque", ("is", _ck(a), _ck(b)), False, t.deps)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Cond) or isinstance(b, Cond):
                c, o = (a, b) if isinstance(a, Cond) else (b, a)
                if o is None:
                    return False
                return c if o else c.inv()
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, PyDict):
            if isinstance(x, (Top, AStr)):
                return Cond("opaque", ("in", _ck(x), oid(c)))
            return self.hashable(x) in c.d
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return Cond("opaque", ("in", _ck(x), c))
        items = self.tolist(c)
        if items is not None:
            unknown = False
            for y in items:
                r = self.compare("Eq", x, y)
                if r is True:
                    return True
                if r is not False:
                    unknown = True
                    if not isinstance(r, Cond):
                        r = Cond("opaque", ("in", _ck(x), _ck(y)))
                    if self.truth(r):
                        return True
            return False
        if isinstance(c, Obj) and c.cls is not None:
            k, f = c.cls.lookup("__contains__")
            if f is not None:
                return self.call(Bound(f, c), [x], {})
        return Cond("opaque", ("in", _ck(x), _ck(c)), False, self.deps(x) + self.deps(c))

    def e_Lambda(self, e, fr):
        f = Func(e, fr.module, fr, None, "func", "<lambda>")
        f.defaults = [self.expr(d, fr) for d in e.args.defaults]
        f.kwdefaults = [None if d is None else self.expr(d, fr) for d in e.args.kw_defaults]
        return f

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        return self.expr(e.value, fr)

    def e_Slice(self, e, fr):
        return SliceV(*(None if x is None else self.expr(x, fr) for x in (e.lower, e.upper, e.step)))

    def e_Attribute(self, e, fr):
        o = self.expr(e.value, fr)
        self.mark(e)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, fr):
        o = self.expr(e.value, fr)
        if isinstance(o, (Ext, Cls)) and not isinstance(o, Tensor):
            # generics / jaxtyping annotations
            if isinstance(o, Ext) and o.name == "numpy.s_":
                return self.index_expr(e.slice, fr)
            return o
        i = self.index_expr(e.slice, fr)
        self.mark(e)
        return self.getitem(o, i)

    def index_expr(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.elts(s.elts, fr))
        return self.expr(s, fr)

    def comp(self, gens, fr, body):
        """Run a comprehension; returns list of results or AbsSeq."""
        f = Frame(fr.module, fr, fr.func, None)
        f.cls = fr.cls
        out = []

        def rec(i):
            if i == len(gens):
                out.append(body(f))
                return
            g = gens[i]
            it = self.expr(g.iter, f if i else fr)
            for x in self.iterate(it):
                self.assign(g.target, x, f)
                if all(self.truth(self.expr(c, f)) for c in g.ifs):
                    rec(i + 1)
        if len(gens) == 1:
            it = self.expr(gens[0].iter, fr)
            if isinstance(it, AbsSeq) and not gens[0].ifs:
                def elem(i, it=it):
                    self.assign(gens[0].target, it.elem(i), f)
                    return body(f)
                return AbsSeq(elem, it.length)
            for x in self.iterate(it):
                self.assign(gens[0].target, x, f)
                if all(self.truth(self.expr(c, f)) for c in gens[0].ifs):
                    out.append(body(f))
            return out
        rec(0)
        return out

    def e_ListComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.expr(e.elt, f))
        return r if isinstance(r, AbsSeq) else PyList(r)

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.expr(e.elt, f))
        return r if isinstance(r, AbsSeq) else self.make_set(r)

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: (self.hashable(self.expr(e.key, f)), self.expr(e.value, f)))
        if isinstance(r, AbsSeq):
            return self.top("dict comprehension over symbolic range")
        return PyDict(dict(r))

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.expr(e.value, fr)
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is not None:
            f.yields.append(v)
        self.ev("yield", value=v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.expr(e.value, fr)
        for x in self.iterate(v):
            f = fr
            while f is not None and f.yields is None:
                f = f.parent
            if f is not None:
                f.yields.append(x)
            self.ev("yield", value=x)
        return None

    def e_Await(self, e, fr):
        return self.expr(e.value, fr)

    # -- calls -------------------------------------------------------------
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.loc:
            return self.super_(e, fr)
        fn = self.expr(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                if isinstance(v, PyDict):
                    kw.update({str(x): y for x, y in v.d.items()})
                else:
                    self.top("call **unknown")
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.mark(e)
        self.callsites += 1
        return self.call(fn, args, kw)

    def super_(self, e, fr):
        f = fr
        while f is not None and (f.func is None or f.self_ is None):
            f = f.parent
        if f is None:
            return self.top("super() outside method")
        o = Obj(None, "super")
        o.info["self"] = f.self_
        o.info["cls"] = f.func.cls
        return o

    def call(self, fn, args, kw):
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Bound):
            f = fn.func
            if isinstance(f, Func):
                return self.call_func(f, [fn.self] + list(args), kw, self_=fn.self)
            return self.call(f, [fn.self] + list(args), kw)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, Obj):
            return self.call_obj(fn, args, kw)
        if isinstance(fn, Ext):
            return self.T.call_ext(self, fn.name, args, kw)
        if isinstance(fn, ExtBound):
            return self.T.call_method(self, fn.obj, fn.name, args, kw)
        if isinstance(fn, HostFn):
            self.ev("callback", name=fn.name, args=args, kw=kw)
            return fn.fn(self, args, kw)
        if fn is None or isinstance(fn, (int, str, tuple, PyList, PyDict, Num, Tensor)):
            self.err("TypeError", "%s object is not callable" % tname(fn))
        if isinstance(fn, Top) and fn.why.startswith("callback:"):
            self.ev("callback", name=fn.why, args=args, kw=kw)
        return self.top("call of %r" % (fn,), *([fn] + list(args) + list(kw.values())))

    def call_obj(self, o, args, kw):
        if o.cls is not None:
            c, f = o.cls.lookup("__call__")
            if f is not None:
                return self.call(Bound(f, o), args, kw)
            if o.is_module():
                return self.module_forward(o, args, kw)
        if o.ext is not None:
            return self.T.call_extobj(self, o, args, kw)
        self.err("TypeError", "%s object is not callable" % o.clsname())

    def module_forward(self, o, args, kw):
        c, f = o.cls.lookup("forward")
        if f is None:
            for n in o.cls.ext_bases():
                if n.startswith("torch.nn.") and n != "torch.nn.Module":
                    return self.T.call_extobj(self, o, args, kw, kind=n)
            self.err("NotImplementedError", "module %s has no forward" % o.clsname())
        return self.call(Bound(f, o), args, kw)

    def instantiate(self, cls, args, kw):
        o = Obj(cls)
        c, f = cls.lookup("__init__")
        nc, nf = cls.lookup("__new__")
        if f is not None:
            self.call(Bound(f, o), args, kw)
        elif "__dataclass__" in cls.attrs:
            names = cls.attrs["__dataclass__"]
            for n, a in zip(names, args):
                o.attrs[n] = a
            o.attrs.update(kw)
        else:
            ext = [n for n in cls.ext_bases() if n not in ("object", "abc.ABC")]
            if any(n.endswith("Exception") or n.endswith("Error") for n in ext):
                return Exc(cls.name, args[0] if args else "", cls)
            if ext:
                self.T.ext_init(self, o, ext[0], args, kw)
            if any(n in ("typing.NamedTuple", "NamedTuple") for n in ext):
                pass
        return o

    def call_func(self, fn, args, kw, self_=None):
        if len(self.stack) > MAXDEPTH:
            raise PathAbort("inlining depth")
        node = fn.node
        if not fn.module.startswith("ref."):
            self.functions_seen.add((fn.module, fn.qual))
        if len(self.stack) == 1 and self.phase == "call":
            self.subjects.append((self.prog.mods[fn.module].path, fn.qual))
        fr = Frame(fn.module, fn.closure, fn, fn.cls)
        if fn.kind == "static" and self_ is not None:
            args = args[1:]
        if fn.kind == "class" and isinstance(self_, Obj):
            args = [self_.cls] + list(args[1:])
        if fn.cls is not None and fn.kind not in ("static",):
            fr.self_ = args[0] if args else None
        self.bind(fn, fr, list(args), dict(kw))
        self.frames.append(fr)
        sm = self.prog.mods[fn.module]
        self.stack.append((sm.path, fn.qual, node.lineno))
        nog = fn.kind == "nograd"
        if nog:
            self.grad_disabled += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, fr)
            if is_generator(node):
                fr.yields = []
                try:
                    self.block(node.body, fr)
                except ReturnEx:
                    pass
                r = PyList(fr.yields, "generator")
                return r
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                if self.opts.get("trace_returns"):
                    self.ev("return", func=fn.module + "." + fn.qual, value=r.v, args=args, kw=kw)
                return r.v
            return None
        finally:
            if nog:
                self.grad_disabled -= 1
            self.stack.pop()
            self.frames.pop()

    def bind(self, fn, fr, args, kw):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        loc = fr.loc
        if len(args) > len(names):
            if a.vararg:
                loc[a.vararg.arg] = tuple(args[len(names):])
            else:
                self.err("TypeError", "%s() takes %d positional arguments but %d were given" % (
                    fn.qual, len(names), len(args)))
            args = args[:len(names)]
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        kwnames = [p.arg for p in a.kwonlyargs]
        splat = kw.pop("**", None)
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwnames:
                if k in loc and k in names[:len(args)]:
                    self.err("TypeError", "%s() got multiple values for argument '%s'" % (fn.qual, k))
                loc[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = PyDict(extra)
            loc[a.kwarg.arg] = d
        elif extra:
            self.err("TypeError", "%s() got an unexpected keyword argument '%s'" % (fn.qual, list(extra)[0]))
        nd = len(fn.defaults or [])
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j >= 0:
                    loc[n] = fn.defaults[j]
                elif splat is not None:
                    loc[n] = self.top("from ** splat", splat)
                else:
                    self.err("TypeError", "%s() missing required argument '%s'" % (fn.qual, n))
        for n, d, dn in zip(kwnames, fn.kwdefaults or [], a.kw_defaults):
            if n not in loc:
                if dn is None:
                    if splat is not None:
                        loc[n] = self.top("from ** splat", splat)
                    else:
                        self.err("TypeError", "%s() missing keyword argument '%s'" % (fn.qual, n))
                else:
                    loc[n] = d

    # -- attributes --------------------------------------------------------
    def getattr(self, o, name, default=KeyError):
        if isinstance(o, LazyImport):
            o = self.lazy(o)
        if isinstance(o, ModV):
            g = self.module(o.name)
            if name in g:
                v = g[name]
                return self.lazy(v) if isinstance(v, LazyImport) else v
            if o.name + "." + name in self.prog.mods:
                return ModV(o.name + "." + name)
            self.err("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Ext):
            return self.T.ext_attr(self, o.name, name)
        if isinstance(o, Obj):
            return self.obj_getattr(o, name, default)
        if isinstance(o, Cls):
            c, v = o.lookup(name)
            if v is not None or (c is not None):
                if isinstance(v, Func) and v.kind == "class":
                    return Bound(v, o)
                return v
            if name == "__name__":
                return o.name
            if default is not KeyError:
                return default
            return self.top("class attribute %s.%s" % (o.name, name))
        if isinstance(o, Tensor):
            return self.T.tensor_attr(self, o, name)
        if isinstance(o, Func) and name == "__name__":
            return o.name
        if isinstance(o, Exc):
            return self.top("exception attribute")
        if o is None:
            if default is not KeyError:
                return default
            self.ev("none_attr", attr=name)
            raise RaiseEx(Exc("AttributeError", "None.%s" % name), self.here())
        if isinstance(o, Top):
            if name == "device":
                return Ext("device:None")
            return ExtBound(o, name) if False else self.top("attribute %s of %r" % (name, o), o)
        return self.T.value_attr(self, o, name, default)

    def obj_getattr(self, o, name, default=KeyError):
        if o.ext == "super":
            me, cls = o.info["self"], o.info["cls"]
            mcls = me if isinstance(me, Cls) else me.cls
            c, v = mcls.lookup(name, after=cls)
            if v is not None:
                if isinstance(v, Property):
                    return self.call(Bound(v.fget, me), [], {})
                if isinstance(v, Func) and v.kind != "static":
                    return Bound(v, me)
                return v
            x = Obj(None, "superext")
            x.info.update(o.info)
            return ExtBound(x, name)
        if name in o.attrs:
            v = o.attrs[name]
            if self.phase == "call":
                self.ev("attr_read", obj=o, attr=name, value=v)
            return v
        if o.cls is not None:
            c, v = o.cls.lookup(name)
            if c is not None:
                if isinstance(v, Property):
                    return self.call(Bound(v.fget, o), [], {})
                if isinstance(v, Func):
                    if v.kind == "static":
                        return v
                    return Bound(v, o)
                return v
        if name == "__class__":
            return o.cls or Ext(o.ext)
        if name == "__dict__":
            return PyDict(o.attrs)
        r = self.T.extobj_attr(self, o, name)
        if r is not None:
            return r
        if default is not KeyError:
            return default
        if o.cls is not None and all(n in ("object", "abc.ABC", "torch.nn.Module") or (
                n in extattrs.KNOWN and name not in extattrs.KNOWN[n] and not name.startswith("__")) for n in o.cls.ext_bases()):
            self.ev("missing_attr", obj=o, attr=name)
            raise RaiseEx(Exc("AttributeError", "%s has no attribute %s" % (o.clsname(), name)), self.here())
        return self.top("attribute %s of %s" % (name, o.clsname()))

    def attr_write(self, o, name, v):
        if o.path is not None or o.roots:
            self.ev("attr_write", obj=o, attr=name, value=v, path=o.path, roots=frozenset(o.roots),
                    old=o.attrs.get(name))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.cls is not None:
                c, p = o.cls.lookup(name)
                if isinstance(p, Property):
                    if p.fset is None:
                        self.err("AttributeError", "can't set attribute %s" % name)
                    self.call(Bound(p.fset, o), [v], {})
                    return
            self.attr_write(o, name, v)
            if o.is_module():
                if isinstance(v, Obj) and v.is_module():
                    o.reg[name] = "module"
                elif isinstance(v, Tensor) and v.is_param:
                    o.reg[name] = "param"
                elif name in o.reg and o.reg[name] == "buffer" and (isinstance(v, Tensor) or v is None):
                    pass
                elif name in o.reg and o.reg[name] in ("param",) and isinstance(v, Tensor) and not v.is_param:
                    self.err("TypeError", "cannot assign a plain tensor to parameter %s" % name)
                elif name in o.reg and not isinstance(v, (Tensor, Obj)) and v is not None:
                    del o.reg[name]
            o.attrs[name] = v
            return
        if isinstance(o, Cls):
            self.ev("class_write", cls=o, attr=name)
            o.attrs[name] = v
            return
        if isinstance(o, Tensor):
            if name in ("data",):
                if isinstance(v, Tensor):
                    self.write(o, "data=", self.nd(v))
                return
            if name in ("requires_grad", "grad"):
                self.ev("tensor_attr_write", attr=name, roots=frozenset(o.store.roots))
                return
            self.ev("tensor_attr_write", attr=name, roots=frozenset(o.store.roots))
            return
        if isinstance(o, ModV):
            self.ev("global_write", name=o.name + "." + name)
            self.module(o.name)[name] = v
            return
        self.top("setattr on %r" % (o,))

    # -- subscripts --------------------------------------------------------
    def getitem(self, o, i):
        if isinstance(o, Tensor):
            return self.T.getitem(self, o, i)
        if isinstance(o, (PyList, tuple)):
            items = o.items if isinstance(o, PyList) else o
            if isinstance(i, SliceV):
                s = self.concrete_slice(i)
                if s is not None:
                    r = items[s]
                    return PyList(r) if isinstance(o, PyList) else r
                if all(x is None or isinstance(x, (int, Num, Tensor)) for x in (i.start, i.stop)) and i.step in (None, 1):
                    # a run-time sub-list: represented by the whole list (its elements are the ones any sub-list draws from)
                    self.ev("sublist", length=len(items))
                    return PyList(list(items)) if isinstance(o, PyList) else items
                return self.top("symbolic list slice", *([x for x in items]))
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, Tensor) and i.shape == () and i.dtype in ("i64", "i32"):
                from .torchmodel import numnode
                c = numnode(self, i)
                if c is not None and c.cval() is not None:
                    i = int(c.cval())
            if isinstance(i, Num):
                c = i.p.cval()
                if c is not None and c.denominator == 1:
                    i = int(c)
            if isinstance(i, int):
                if -len(items) <= i < len(items):
                    return items[i]
                self.ev("index_error", index=i, length=len(items))
                raise RaiseEx(Exc("IndexError"), self.here())
            if isinstance(i, Num) and items and len(set(map(repr, items))) == 1:
                return items[0]
            if isinstance(i, (Num, Tensor)) and items and all(isinstance(x, (str, AStr)) for x in items):
                return AStr("element", (tuple(items), i))
            if isinstance(i, (PyList, str, tuple)) or i is None:
                self.err("TypeError", "list indices must be integers")
            return self.choose(items, i, "symbolic list index")
        if isinstance(o, PyDict):
            k = self.hashable(i)
            if k in o.d:
                return o.d[k]
            if isinstance(i, (Top, AStr, Num)):
                return self.top("symbolic dict key", *list(o.d.values()))
            self.ev("key_error", key=i)
            raise RaiseEx(Exc("KeyError"), self.here())
        if isinstance(o, AbsSeq):
            if isinstance(i, int):
                if i < 0:
                    return o.elem(o.length + i)
                return o.elem(Poly.const(i))
            if isinstance(i, Num):
                return o.elem(i.p)
            if isinstance(i, SliceV) and (i.step is None or i.step == 1):
                a = 0 if i.start is None else i.start
                b = Num(o.length, "int") if i.stop is None else i.stop
                pa, pb = self.num(a), self.num(b)
                if pa is not None and pb is not None:
                    if isinstance(i.stop, int) and i.stop < 0:
                        pb = o.length + i.stop
                    return AbsSeq(lambda k: o.elem(pa + k), pb - pa)
            if isinstance(i, SliceV) and i.step == -1 and i.start is None and i.stop is None:
                return AbsSeq(lambda k: o.elem(o.length - 1 - k), o.length)
            return self.top("abstract sequence index")
        if isinstance(o, str):
            if isinstance(i, int) and -len(o) <= i < len(o):
                return o[i]
            if isinstance(i, SliceV):
                s = self.concrete_slice(i)
                if s is not None:
                    return o[s]
            return AStr("str index")
        if isinstance(o, Obj):
            if o.cls is not None:
                c, f = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(Bound(f, o), [i], {})
            return self.T.extobj_getitem(self, o, i)
        if o is None:
            self.err("TypeError", "'NoneType' object is not subscriptable")
        return self.top("subscript of %s" % tname(o), o, i)

    def concrete_slice(self, s):
        vs = []
        for x in (s.start, s.stop, s.step):
            if isinstance(x, Tensor) and x.shape == () and x.dtype in ("i64", "i32"):
                from .torchmodel import numnode
                p = numnode(self, x)
                x = x if p is None else Num(p, "int")
            if isinstance(x, Num):
                c = x.p.cval()
                if c is None or c.denominator != 1:
                    return None
                x = int(c)
            if x is not None and not isinstance(x, int):
                return None
            vs.append(x)
        return slice(*vs)

    def setitem(self, o, i, v, aug=None):
        if isinstance(o, Tensor):
            return self.T.setitem(self, o, i, v, aug)
        if isinstance(o, PyList):
            self.container_write(o, "[]=")
            if isinstance(i, Num) and i.p.cval() is not None:
                i = int(i.p.cval())
            if isinstance(i, int) and not isinstance(i, bool):
                if -len(o.items) <= i < len(o.items):
                    o.items[i] = v
                else:
                    self.ev("index_error", index=i, length=len(o.items))
                    raise RaiseEx(Exc("IndexError"), self.here())
                return
            self.top("symbolic list store")
            return
        if isinstance(o, PyDict):
            self.container_write(o, "[]=")
            o.d[self.hashable(i)] = v
            return
        if isinstance(o, Obj) and o.cls is not None:
            c, f = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(Bound(f, o), [i, v], {})
                return
        if isinstance(o, tuple):
            self.err("TypeError", "tuple does not support item assignment")
        self.top("store into %s" % tname(o))


# -- helpers ---------------------------------------------------------------------

class LazyImport:
    __slots__ = ("base", "name")

    def __init__(self, base, name):
        self.base, self.name = base, name


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
          ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or",
          ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}

EXCNAMES = {"Exception", "ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "NotImplementedError",
            "AttributeError", "StopIteration", "AssertionError", "ZeroDivisionError", "OSError", "FileNotFoundError",
            "UserWarning", "DeprecationWarning", "RuntimeWarning", "ImportError", "NotImplemented", "Warning",
            "FutureWarning", "ArithmeticError", "OverflowError"}

BUILTINS = {"len", "range", "zip", "enumerate", "min", "max", "sum", "sorted", "list", "tuple", "dict", "set", "int",
            "float", "bool", "str", "abs", "round", "any", "all", "isinstance", "issubclass", "hasattr", "getattr",
            "setattr", "super", "divmod", "map", "filter", "slice", "iter", "next", "print", "type", "reversed",
            "pow", "callable", "complex", "object", "property", "staticmethod", "classmethod", "id", "repr", "vars",
            "delattr", "hash", "open", "frozenset", "bytes", "Ellipsis", "format", "ord", "chr", "globals", "dir"}


def exc_matches(e, names):
    parents = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "NotImplementedError": ["RuntimeError"],
               "FileNotFoundError": ["OSError"], "ZeroDivisionError": ["ArithmeticError"]}
    al = {e.name, "Exception", "BaseException"} | set(parents.get(e.name, []))
    if e.cls is not None:
        for b in e.cls.mro():
            al.add(b.name.split(".")[-1])
    return any(n in al for n in names)


def canon(name):
    p = name.split(".")
    if p[0] == "np":
        p[0] = "numpy"
    return ".".join(p)


def tname(v):
    if v is None:
        return "None"
    if isinstance(v, (PyList,)):
        return v.kind
    return type(v).__name__


def kindof(v):
    if isinstance(v, bool) or isinstance(v, int):
        return "int"
    return v.kind


def mknum(p, kind):
    c = p.cval()
    if c is not None and kind == "int" and c.denominator == 1:
        return int(c)
    return Num(p, kind)


def _ck(v):
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, AStr):
        return ("astr", oid(v))
    return ("id", oid(v))


def poly_nodes(p, _d=0):
    """Value-graph nodes referenced by a scalar normal form (e.g. item(tensor))."""
    out = []
    for a in p.atoms():
        for x in a[1:]:
            if isinstance(x, Node):
                out.append(x)
            elif isinstance(x, Poly) and _d < 12:
                out.extend(poly_nodes(x, _d + 1))
    return out




def is_generator(node):
    r = getattr(node, "_sa_gen", None)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        node._sa_gen = r
    return r
