"""Entry-point harness: build abstract arguments, enumerate the bounded trace partition."""
from __future__ import annotations

import os
import time
from fractions import Fraction

from . import algebra as A
from .algebra import Poly, declare, topoly
from .values import *
from .shapes import *
from .interp import (Interp, Oracle, Program, Globals, Result, RaiseEx, ReturnEx, PathAbort, AnalysisBroken, mknum)
from . import torchmodel as _M  # noqa: F401  (must load first: it pulls in torchops, then torchext)
from . import torchext as X


class Ctx:
    """One path's context, handed to the entry specification."""

    def __init__(self, I):
        self.I = I
        self.inputs = {}

    def sym(self, name, integer=True, lo=1, hi=None, pos=None):
        return mknum(declare(name, integer=integer, lo=lo, hi=hi, pos=pos), "int" if integer else "float")

    def named(self, name, p):
        """A number with a given normal form, remembered for the reference formulas."""
        n = mknum(p, "int")
        self.inputs["#" + name] = n
        return n

    def real(self, name, pos=True):
        return Num(declare(name, integer=False, pos=pos), "float")

    def inf(self):
        return Num(Poly.atom(("s", "inf")), "float")

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, int):
            return Poly.const(v)
        if isinstance(v, Num):
            return v.p
        if isinstance(v, str):
            if v not in A.SYM:
                declare(v, integer=True, lo=1)
            return Poly.atom(("s", v))
        raise TypeError(v)

    def tensor(self, name, dims, dtype="f32", device="D", root="arg"):
        sh = None if dims is None else tuple(Dim(self.poly(d)) for d in dims)
        I = self.I
        t = I.tensor("input", (), name, sh, dtype, device, roots=["%s:%s" % (root, name)])
        self.inputs[name] = t
        return t

    def list(self, name, items):
        l = PyList(items, roots=["arg:%s" % name])
        return l

    def dict(self, name, d):
        return PyDict(d, roots=["arg:%s" % name])

    def callback(self, name, fn=None):
        """A user callable.  Default contract: elementwise on its first tensor argument, pure."""
        def default(I, args, kw):
            t = next((a for a in list(args) + list(kw.values()) if isinstance(a, Tensor)), None)
            if t is None:
                return I.top("callback:" + name, *args)
            ts = tuple(a for a in list(args) + list(kw.values()) if isinstance(a, Tensor))
            return I.tensor("callback", ts, name, t.shape, t.dtype, t.device)
        return HostFn(name, default if fn is None else fn)

    def scalar(self, name, dtype="f32", device="D"):
        return self.tensor(name, [], dtype, device)

    def device(self, name="D"):
        return Ext("device:" + name)

    def iterate(self, o):
        return self.I.call(self.I.getattr(o, "__iter__"), [], {})

    def get(self, dotted):
        return self.I.lookup_path(dotted)

    def _w(self, v):
        return Num(Poly.const(Fraction(str(v))), "float") if isinstance(v, float) else v

    def _call(self, f, args, kw):
        return self.I.call(f, [self._w(a) for a in args], {k: self._w(v) for k, v in kw.items()})

    def call(self, dotted, *args, **kw):
        return self._call(self.get(dotted) if isinstance(dotted, str) else dotted, args, kw)

    def new(self, dotted, *args, **kw):
        return self._call(self.get(dotted), args, kw)

    def method(self, o, name, *args, **kw):
        return self._call(self.I.getattr(o, name), args, kw)

    def publish(self, o, name="self", device="D"):
        """Freeze a module as pre-existing state: tag storages, move registered state."""
        I = self.I
        if device is not None:
            X.move_module(I, o, device)
        reg = {}
        for p, ow, k, v, kind, per in X.registered(o):
            if isinstance(v, Tensor):
                reg[id(v.store)] = (p, kind, per)
        seen = set()
        for path, x in X.obj_walk(o):
            x.path = name + ("." + path if path else "")
            x.roots.add("state:" + x.path)
            for k, v in x.attrs.items():
                self._tag(v, x.path + "." + k, reg, seen)
        return o

    def trained(self, o):
        """Give every parameter and buffer of a module an arbitrary value; state-dict path -> value."""
        out = {}
        for p, ow, k, v, kind, per in list(X.registered(o)):
            if isinstance(v, Tensor) and p not in out:
                t = self.I.tensor("input", (), "state." + p, v.shape, v.dtype, v.device)
                t.is_param = v.is_param
                ow.attrs[k] = out[p] = t
        return PyDict(out)

    def _tag(self, v, path, reg, seen, depth=0):
        if depth > 4:
            return
        if isinstance(v, Tensor):
            v.store.roots.add("state:" + path)
        elif isinstance(v, (PyList, PyDict)):
            if id(v) in seen:
                return
            seen.add(id(v))
            v.roots.add("state:" + path)
            for x in (v.items if isinstance(v, PyList) else v.d.values()):
                self._tag(x, path + "[]", reg, seen, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self._tag(x, path + "[]", reg, seen, depth + 1)

    def len(self, o):
        return X.builtin_len(self.I, o)

    # -- comparison with a reference program --------------------------------------
    def attempt(self, f, *args, **kw):
        """("value", v) or ("raises", exception name) of a call."""
        try:
            return ("value", f(*args, **kw))
        except RaiseEx as e:
            return ("raises", e.exc.name)

    def ref(self, dotted, *args, **kw):
        """Run a reference program of sa/refs on the same arguments; its k-th random draw is the subject's k-th."""
        I = self.I
        I.rngcount = 0
        I.phase = "reference"
        return self._call(I.lookup_path("ref." + dotted), args, kw)

    def probe(self, dotted, *args, **kw):
        """A program of sa/refs run as part of the set-up or of the subject."""
        return self._call(self.I.lookup_path("ref." + dotted), args, kw)

    def pair(self, subject, reference):
        """Outcomes of the analysed operation and of its reference program."""
        self.I.rngcount = 0
        self.begin()
        a = self.attempt(subject)
        n = len(self.I.events)
        b = self.attempt(reference)
        self.events_end = n
        return (a, b)

    def begin(self):
        """End of set-up: from here on effects on pre-existing state count."""
        self.I.phase = "call"

    def assume_ge(self, a, b):
        self.I.facts.add_ge0(self.poly(a) - self.poly(b))

    def assume_eq(self, a, b):
        d = self.poly(a) - self.poly(b)
        self.I.facts.add_ge0(d)
        self.I.facts.add_ge0(-d)


class Analysis:
    def __init__(self, root="/repo"):
        self.prog = Program(root)
        self.shared = Globals()
        self.symbase = dict(A.SYM)
        self.stats = dict(entries=0, paths=0, aborted=0, truncated=0, tops=0, steps=0, callsites=0)
        self.functions = set()
        self.entry_log = []
        self.top_log = {}
        self.funcs_total = len(self.prog.functions())

    def run(self, name, spec, maxpaths=96, opts=None, deadline=None):
        """spec(ctx) -> value.  Returns the list of path Results."""
        orc = Oracle(maxpaths)
        results = []
        t0 = time.time()
        A.SYM.clear()
        A.SYM.update(self.symbase)
        while True:
            orc.begin()
            PINNED.clear()
            I = Interp(self.prog, self.shared, opts)
            I.restore_globals()
            I.oracle = orc
            I.stack = [("<entry>", name, 0)]
            r = Result()
            r.interp = I
            ctx = Ctx(I)
            r.ctx = ctx
            try:
                r.value = spec(ctx)
            except RaiseEx as e:
                r.exc = e.exc
                r.exc_loc = e.loc
            except PathAbort as e:
                r.aborted = e.why
                self.stats["aborted"] += 1
            except A.Blowup:
                r.aborted = "normal form blow-up"
                self.stats["aborted"] += 1
            except ReturnEx as e:
                r.value = e.v
            except AnalysisBroken:
                raise
            except Exception as e:  # a hole in the analyser, not in the program: the path is reported as not covered
                if os.environ.get("SA_DEBUG"):
                    raise
                r.aborted = "analyser: %s: %s" % (type(e).__name__, e)
                self.stats["aborted"] += 1
            r.events = I.events
            r.facts = I.facts
            r.decisions = I.decisions
            r.phase = I.phase
            results.append(r)
            self.functions |= I.functions_seen
            self.stats["paths"] += 1
            self.stats["steps"] += I.steps
            self.stats["callsites"] += I.callsites
            self.stats["tops"] += len(I.tops)
            for t in I.tops:
                self.top_log[(t[0], t[1], t[3])] = self.top_log.get((t[0], t[1], t[3]), 0) + 1
            if not orc.advance():
                break
            if time.time() - t0 > (deadline or 60):
                orc.truncated = True
                break
        if orc.truncated:
            self.stats["truncated"] += 1
        self.stats["entries"] += 1
        self.entry_log.append((name, len(results), sum(1 for r in results if r.exc is None and r.aborted is None),
                               round(time.time() - t0, 2)))
        return results
