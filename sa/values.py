"""Abstract values of the analyser."""
from __future__ import annotations

from fractions import Fraction as Fr

from .algebra import Poly, topoly


PINNED = {}


def oid(v):
    """Identity usable as a memo key for the rest of the path: the object is kept alive so that it is never reused."""
    PINNED[id(v)] = v
    return id(v)


class Top:
    """Unknown value.  `deps` are the value-graph nodes it may depend on."""
    __slots__ = ("why", "deps")

    def __init__(self, why="", deps=()):
        self.why = why
        self.deps = frozenset(deps)

    def __repr__(self):
        return "Top(%s)" % self.why


class Num:
    """Abstract Python number: a normal form plus its Python kind."""
    __slots__ = ("p", "kind")

    def __init__(self, p, kind):
        self.p = topoly(p)
        self.kind = kind

    def __repr__(self):
        return "Num(%r,%s)" % (self.p, self.kind)


class Cond:
    """Abstract boolean: kind in 'ge' (p>=0) / 'gt' / 'eq' / 'opaque'."""
    __slots__ = ("kind", "p", "neg", "deps")

    def __init__(self, kind, p, neg=False, deps=()):
        if kind == "eq" and isinstance(p, Poly) and p.t:
            k = min(p.t, key=repr)          # p == 0 and -p == 0 are the same condition
            p = -p if p.t[k] < 0 else p
        self.kind, self.p, self.neg, self.deps = kind, p, neg, frozenset(deps)

    def inv(self):
        return Cond(self.kind, self.p, not self.neg, self.deps)

    def key(self):
        return (self.kind, self.p)

    def __repr__(self):
        return "Cond(%s%s %r)" % ("not " if self.neg else "", self.kind, self.p)


class AStr:
    """Abstract string with unknown content."""
    __slots__ = ("why", "src")

    def __init__(self, why="", src=None):
        self.why = why
        self.src = src      # (items, index value) when the string is one element of a known list

    def __repr__(self):
        return "AStr(%s)" % self.why


class PyList:
    __slots__ = ("items", "roots", "kind", "uid")
    _n = 0

    def __init__(self, items=(), kind="list", roots=()):
        self.items = list(items)
        self.kind = kind
        self.roots = set(roots)
        PyList._n += 1
        self.uid = PyList._n

    def __repr__(self):
        return "PyList(%r)" % (self.items,)


class PyDict:
    __slots__ = ("d", "roots", "uid")

    def __init__(self, d=(), roots=()):
        self.d = dict(d)
        self.roots = set(roots)

    def __repr__(self):
        return "PyDict(%r)" % (self.d,)


class AbsSeq:
    """Homogeneous sequence of symbolic length; elem(i) builds element i (i: Poly)."""
    __slots__ = ("elem", "length", "why", "roots")

    def __init__(self, elem, length, why="", roots=()):
        self.elem, self.length, self.why = elem, topoly(length), why
        self.roots = set(roots)

    def __repr__(self):
        return "AbsSeq(len=%r)" % (self.length,)


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class ModV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext:
    """External (non-package) entity named by dotted path."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class Func:
    __slots__ = ("node", "module", "closure", "cls", "name", "qual", "kind", "defaults", "kwdefaults")

    def __init__(self, node, module, closure=None, cls=None, kind="func", qual=None):
        self.node, self.module, self.closure, self.cls, self.kind = node, module, closure, cls, kind
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.defaults = None
        self.kwdefaults = None

    def __repr__(self):
        return "Func(%s.%s)" % (self.module, self.qual)


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "Bound(%r)" % (self.func,)


class ExtBound:
    """Method `name` of an abstract value (list.append, tensor.mean, ...)."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "ExtBound(%s)" % self.name


class Partial:
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Cls:
    """Package class."""
    __slots__ = ("name", "module", "node", "bases", "attrs", "qual")

    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.qual = module + "." + name

    def mro(self):
        # C3 is overkill here: depth-first, last occurrence wins
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Cls) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Cls) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c.name for c in self.mro() if isinstance(c, Ext)]

    def is_module(self):
        return any(n in MODULE_BASES for n in self.ext_bases())

    def __repr__(self):
        return "Cls(%s)" % self.qual


MODULE_BASES = {"torch.nn.Module", "torch.nn.modules.module.Module", "torch.nn.ModuleList", "torch.nn.Sequential",
                "torch.nn.Identity", "torch.nn.GroupNorm", "torch.nn.BatchNorm1d"}


class Obj:
    """Instance of a package class or of a modelled external class."""
    _n = 0

    def __init__(self, cls, ext=None):
        self.cls = cls          # Cls or None
        self.ext = ext          # dotted name for external instances
        self.attrs = {}
        self.reg = {}           # attr -> 'buffer' | 'param' | 'module'
        self.nonpersistent = set()
        self.path = None        # set once the object is 'published'
        self.roots = set()
        self.info = {}
        Obj._n += 1
        self.uid = Obj._n

    def is_module(self):
        if self.cls is not None:
            return self.cls.is_module()
        return bool(self.ext and self.ext.startswith("torch.nn"))

    def clsname(self):
        return self.cls.qual if self.cls else self.ext

    def __repr__(self):
        return "Obj(%s)" % self.clsname()


class Exc:
    """Exception instance."""
    __slots__ = ("name", "msg", "cls")

    def __init__(self, name, msg="", cls=None):
        self.name, self.msg, self.cls = name, msg, cls

    def __repr__(self):
        return "Exc(%s)" % self.name


class Property:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


# -- tensors -------------------------------------------------------------------

class Dim:
    """Axis length plus the ordered primitive axes it was merged from."""
    __slots__ = ("p", "lab")

    def __init__(self, p, lab=None):
        self.p = topoly(p)
        self.lab = lab if lab is not None else ((self.p,) if self.p.cval() != 1 else ())

    def __eq__(self, o):
        return isinstance(o, Dim) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return repr(self.p)

    def is1(self):
        return self.p.cval() == 1


class Storage:
    __slots__ = ("roots", "version", "uid", "writes")
    _n = 0

    def __init__(self, roots=()):
        self.roots = set(roots)
        self.version = 0
        self.writes = []
        Storage._n += 1
        self.uid = Storage._n


class Node:
    __slots__ = ("op", "args", "attr", "shape", "dtype", "device", "loc", "uid", "memo")
    _n = 0

    def __init__(self, op, args, attr, shape, dtype, device, loc):
        self.op, self.args, self.attr = op, args, attr
        self.shape, self.dtype, self.device, self.loc = shape, dtype, device, loc
        Node._n += 1
        self.uid = Node._n
        self.memo = {}

    def __repr__(self):
        return "%%%d=%s(%s%s)" % (self.uid, self.op,
                                  ",".join("%%%d" % a.uid if isinstance(a, Node) else repr(a) for a in self.args),
                                  "" if self.attr is None else ";%r" % (self.attr,))


class Tensor:
    """Abstract tensor: storage (aliasing), value-graph node, shape, dtype, device."""
    __slots__ = ("store", "_node", "shape", "dtype", "device", "base", "view", "version", "is_param", "graph")

    def __init__(self, store, node, shape, dtype, device, base=None, view=None):
        self.store, self._node = store, node
        self.shape, self.dtype, self.device = shape, dtype, device
        self.base, self.view = base, view
        self.version = store.version
        self.is_param = False

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def __repr__(self):
        return "T[%s %s %s]" % ("?" if self.shape is None else ",".join(map(repr, self.shape)), self.dtype, self.device)


class HostFn:
    """A user-supplied callable with a stated contract: fn(I, args, kw) -> value."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<callback %s>" % self.name
