"""External calls: builtins, math, numpy, torch.nn layers, distributions, h5py."""
from __future__ import annotations

import math
from fractions import Fraction as Fr

from . import algebra as A
from .algebra import Poly, topoly, declare
from .values import *
from .shapes import *
from . import torchmodel as M
from .torchops import OPS, NT, pint, sizes_arg, T as TT, reduce_
from .torchmodel import (as_array, numnode, num_of, is_scalar, cast, to_device, device_arg, dtype_arg, device_val,
                         dtype_val, store_into, call_op, ew, join_device)

PI = declare("pi", pos=True, val=math.pi)
declare("inf", pos=True, val=float("inf"))
declare("euler", pos=True, val=math.e)
declare("I", pos=False)

# -- attributes of external namespaces ------------------------------------------

CONST = {"math.pi": "pi", "numpy.pi": "pi", "torch.pi": "pi", "math.inf": "inf", "numpy.inf": "inf",
         "torch.inf": "inf", "math.e": "euler", "numpy.e": "euler", "float.inf": "inf"}


def ext_attr(I, base, name):
    full = base + "." + name
    if full in CONST:
        return Num(Poly.atom(("s", CONST[full])), "float")
    if full in ("math.nan", "numpy.nan", "torch.nan"):
        return Num(Poly.atom(("s", "nan")), "float")
    if full == "numpy.newaxis":
        return None
    if base.startswith("device:"):
        if name == "type":
            return AStr("device type")
        if name == "index":
            return None
    if base == "builtins.dict" and name == "fromkeys":
        return Ext("builtins.dict.fromkeys")
    if base.startswith("torch.nn") and not name.startswith("_"):
        return Ext("torch.nn." + name) if base in ("torch.nn",) else Ext(full)
    if name == "__name__":
        return base.split(".")[-1]
    if base.startswith("torch.") and name in ("eps", "max", "min", "tiny") and "finfo" in base:
        return Num(Poly.atom(("s", "eps")), "float")
    return Ext(full)


# -- generic python values ----------------------------------------------------------

def value_attr(I, o, name, default):
    from .interp import tname
    if isinstance(o, NT):
        if name == "values":
            return o[0]
        if name == "indices":
            return o[1]
    if isinstance(o, SliceV):
        return getattr(o, name)
    if isinstance(o, (int, Num)) and name in ("real", "imag"):
        p = num_of(o) if not isinstance(o, bool) else Poly.const(int(o))
        return o if name == "real" else 0
    if isinstance(o, (Func, Bound)) and name in ("__self__",):
        return o.self if isinstance(o, Bound) else None
    if isinstance(o, Bound) and name == "__func__":
        return o.func
    if isinstance(o, Bound) and name == "__name__":
        return o.func.name
    if isinstance(o, Partial) and name in ("func", "args", "keywords"):
        return {"func": o.func, "args": tuple(o.args), "keywords": PyDict(o.kw)}[name]
    if isinstance(o, Exc):
        return AStr("exc")
    if isinstance(o, (PyList, PyDict, tuple, str, int, Num, AStr, AbsSeq, bool)):
        if isinstance(o, (int, Num, bool)) and name not in ("is_integer", "conjugate", "as_integer_ratio", "item",
                                                            "bit_length", "numerator", "astype", "dtype"):
            if default is not KeyError:
                return default
            I.ev("none_attr", attr=name)
            from .interp import RaiseEx
            raise RaiseEx(Exc("AttributeError", "%s.%s" % (tname(o), name)), I.here())
        return M_bound(o, name)
    if default is not KeyError:
        return default
    return I.top("attribute %s of %s" % (name, tname(o)))


def M_bound(o, name):
    return ExtBound(o, name)


# -- tensors --------------------------------------------------------------------------

def tensor_attr(I, t, name):
    from .interp import mknum
    if name == "shape":
        if t.shape is None:
            return I.top("shape of rank-unknown tensor", t) if False else Top("shape?", ())
        return tuple(mknum(d.p, "int") for d in t.shape)
    if name == "ndim":
        if t.shape is None:
            return Num(Poly.atom(("ndim", I.nd(t))), "int")
        return len(t.shape)
    if name == "dtype":
        return dtype_val(t.dtype)
    if name == "device":
        return device_val(t.device)
    if name in ("real", "imag"):
        return OPS[name](I, t)
    if name in ("T", "mT", "H", "mH"):
        if t.shape is None:
            return I.viewof(t, "permute", ("?",), None)
        n = len(t.shape)
        if name in ("T", "H"):
            perm = list(reversed(range(n)))
        else:
            if n < 2:
                I.err("RuntimeError", "mT of a %d-d tensor" % n)
            perm = list(range(n))
            perm[-1], perm[-2] = perm[-2], perm[-1]
        from .torchops import permute_
        r = permute_(I, t, perm)
        return OPS["conj"](I, r) if name in ("H", "mH") else r
    if name == "data":
        I.ev("detach", node=I.nd(t), how=".data")
        return I.viewof(t, "detach", None, t.shape)
    if name == "requires_grad":
        return Cond("opaque", ("requires_grad", I.nd(t).uid))
    if name in ("is_cuda", "is_leaf", "is_sparse"):
        return Cond("opaque", (name, I.nd(t).uid))
    if name == "size" and False:
        return None
    if name in ("grad", "grad_fn"):
        return None
    return ExtBound(t, name)


INPLACE_BASE = {"add_": "add", "sub_": "sub", "mul_": "mul", "div_": "div", "pow_": "pow", "neg_": "neg",
                "abs_": "abs", "sqrt_": "sqrt", "exp_": "exp", "log_": "log", "clamp_": "clamp", "sin_": "sin",
                "cos_": "cos", "nan_to_num_": "nan_to_num", "round_": "round", "floor_": "floor",
                "masked_fill_": "masked_fill", "relu_": "relu", "reciprocal_": "reciprocal", "square_": "square",
                "cumsum_": "cumsum", "remainder_": "remainder", "subtract_": "sub", "multiply_": "mul",
                "divide_": "div", "clip_": "clamp", "rsqrt_": "rsqrt", "sigmoid_": "sigmoid", "tanh_": "tanh",
                "logical_not_": "logical_not", "scatter_": "scatter", "index_add_": "index_add",
                "scatter_add_": "scatter_add", "floor_divide_": "floor_divide", "lerp_": "lerp",
                "trunc_": "trunc", "ceil_": "ceil", "erf_": "erf", "fmod_": "fmod", "atan2_": "atan2"}
RNG_INPLACE = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "log_normal_",
               "geometric_"}


def call_method(I, o, name, args, kw):
    if isinstance(o, Tensor):
        return tensor_method(I, o, name, args, kw)
    if isinstance(o, Obj):
        return extobj_method(I, o, name, args, kw)
    return value_method(I, o, name, args, kw)


def tensor_method(I, t, name, args, kw):
    from .interp import mknum
    if name in ("size",):
        if t.shape is None:
            return Num(Poly.atom(("size", I.nd(t), repr(args))), "int") if args else Top("shape?", ())
        if not args and "dim" not in kw:
            return tuple(mknum(d.p, "int") for d in t.shape)
        d = norm_dim(I, t.shape, args[0] if args else kw["dim"])
        if d is None:
            return I.top("size(dim)", t)
        return mknum(t.shape[d].p, "int")
    if name in ("dim", "ndimension"):
        return tensor_attr(I, t, "ndim")
    if name in ("double", "float", "half", "long", "int", "bool", "cfloat", "cdouble", "bfloat16"):
        d = {"double": "f64", "float": "f32", "half": "f16", "long": "i64", "int": "i32", "bool": "bool",
             "cfloat": "c64", "cdouble": "c128", "bfloat16": "bf16"}[name]
        return cast(I, t, d)
    if name in ("type", "astype"):
        if not args and not kw:
            return AStr("type")
        a = args[0] if args else list(kw.values())[0]
        if name == "astype":
            if isinstance(a, Ext) and a.name.startswith("builtins."):
                a = Ext({"builtins.int": "torch.int64", "builtins.float": "torch.float64",
                         "builtins.bool": "torch.bool"}.get(a.name, a.name))
            r = cast(I, t, dtype_arg(I, a))
            return Tensor(Storage(), I.nd(r), r.shape, r.dtype, r.device) if r is t else r
        d = dtype_arg(I, a)
        return cast(I, t, d)
    if name == "type_as":
        o = args[0]
        if isinstance(o, Tensor):
            return cast(I, to_device(I, t, o.device), o.dtype)
        return I.top("type_as", t)
    if name in ("to", "cuda", "cpu"):
        if name == "cpu":
            return to_device(I, t, "cpu")
        if name == "cuda":
            return to_device(I, t, "D")
        r = t
        vals = list(args) + [kw[k] for k in ("device", "dtype", "other") if k in kw]
        for k, a in enumerate(vals):
            if isinstance(a, Tensor):
                r = to_device(I, r, a.device)
                r = cast(I, r, a.dtype)
            elif isinstance(a, Ext) and a.name.startswith("device:"):
                r = to_device(I, r, device_arg(I, a))
            elif isinstance(a, str):
                r = to_device(I, r, device_arg(I, a))
            elif isinstance(a, Ext):
                if a.name == "dtype:None":
                    r = cast(I, r, None)
                else:
                    d = dtype_arg(I, a)
                    if d is None and a.name.startswith("builtins."):
                        d = {"builtins.float": "f64", "builtins.int": "i64"}.get(a.name)
                    r = cast(I, r, d)
            elif isinstance(a, bool) or a is None:
                continue
            elif isinstance(a, Top):
                return I.tensor("todev", (r,), "?", r.shape, r.dtype, None)
        return r
    if name in ("item", "tolist", "numpy", "__array__"):
        I.ev("detach", node=I.nd(t), how=name)
        if name == "item":
            p = numnode(I, t)
            if p is None:
                p = Poly.atom(("item", I.nd(t)))
                if t.dtype in ("i64", "i32"):
                    p = Poly.atom(("intfn", "item", I.nd(t)))
            kind = None if t.dtype is None else {0: "bool", 1: "int", 2: "float", 3: "complex"}[CAT[t.dtype]]
            return mknum(p, kind or "float")
        if name == "numpy":
            if t.device == "D":
                I.ev("device_numpy")
            r = I.viewof(t, "detach", None, t.shape)
            if I.phase != "call":
                I.nd(r).memo["design"] = True
            return r
        items = I.tolist(t)
        if items is not None:
            return PyList([tensor_method(I, x, "item" if not x.shape else "tolist", [], {}) for x in items])
        if t.shape is not None and len(t.shape) == 1:
            nd = I.nd(t)
            isint = t.dtype in ("i64", "i32")
            return AbsSeq(lambda i: Num(Poly.atom(("intfn" if isint else "fn", "elem", nd, i)),
                                        "int" if isint else "float"), t.shape[0].p)
        return I.top("tolist", t)
    if name == "copy_":
        src = args[0] if args else kw.get("src")
        if isinstance(src, Tensor) and src.shape is not None and t.shape is not None:
            broadcast(I, [t.shape, src.shape], "copy_")
        n = I.node("copy_", (I.asnode(src),), t.dtype, t.shape, t.dtype, t.device)
        I.write(t, "copy_", n, src)
        return t
    if name == "fill_" or name == "zero_":
        v = args[0] if args else 0
        n = I.node("fill", (I.asnode(v),), None, t.shape, t.dtype, t.device)
        I.write(t, name, n, v)
        return t
    if name in RNG_INPLACE:
        I.ev("rng", op=name, generator=kw.get("generator") is not None)
        par = list(args) + [kw[k] for k in sorted(kw) if k != "generator"]
        n = I.node("random", tuple(I.asnode(a) for a in par if is_scalar(a) or isinstance(a, Tensor)), (name, I.freshname("rng")), t.shape, t.dtype, t.device, unique=True)
        I.write(t, name, n)
        return t
    if name == "requires_grad_":
        return t
    if name == "detach_":
        I.ev("detach", node=I.nd(t), how="detach_")
        return t
    if name in ("unsqueeze_", "squeeze_", "t_", "transpose_"):
        I.ev("inplace_meta", roots=frozenset(t.store.roots))
        r = call_op(I, name[:-1], [t] + list(args), kw)
        t.shape = r.shape
        return t
    if name in ("resize_", "set_"):
        n = I.node(name, (I.nd(t),), None, None, t.dtype, t.device)
        I.write(t, name, n)
        return I.top(name, t)
    if name in INPLACE_BASE:
        r = call_op(I, INPLACE_BASE[name], [t] + list(args), kw)
        if isinstance(r, Tensor):
            return store_into(I, t, r, name, list(args) + list(kw.values()))
        return t
    if name in ("apply_", "map_"):
        n = I.node(name, (I.nd(t),), None, t.shape, t.dtype, t.device)
        I.write(t, name, n)
        return t
    if name == "index_put_" or (name == "masked_scatter_"):
        n = I.node("index_put", (I.nd(t),) + tuple(I.asnode(a) for a in args), None, t.shape, t.dtype, t.device)
        I.write(t, name, n, args)
        return t
    if name == "__getitem__":
        return I.getitem(t, args[0])
    if name == "get_device":
        return Top("get_device")
    if name in ("is_contiguous", "is_floating_point", "is_complex"):
        if name == "is_contiguous":
            return Cond("opaque", ("contig", I.nd(t).uid))
        return OPS[name](I, t)
    if name == "element_size":
        return Num(Poly.atom(("s", "elsize")), "int")
    if name == "numel" or name == "nelement":
        return OPS["numel"](I, t)
    if name in ("backward", "retain_grad", "register_hook"):
        return None
    if name == "copy":
        return call_op(I, "clone", [t], {})
    if name == "size" or name == "__len__":
        return builtin_len(I, t)
    if name == "expand_as":
        return call_op(I, "expand", [t, args[0]], {})
    if name in OPS:
        return call_op(I, name, [t] + list(args), kw)
    return I.top("tensor method %s" % name, t, *args)


def builtin_len(I, v):
    from .interp import mknum
    if isinstance(v, Tensor):
        if v.shape is None:
            return Num(Poly.atom(("len", I.nd(v))), "int")
        if len(v.shape) == 0:
            I.err("TypeError", "len() of a 0-d tensor")
        return mknum(v.shape[0].p, "int")
    if isinstance(v, (PyList,)):
        return len(v.items)
    if isinstance(v, PyDict):
        return len(v.d)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, AbsSeq):
        return mknum(v.length, "int")
    if isinstance(v, Obj):
        if v.cls is not None:
            c, f = v.cls.lookup("__len__")
            if f is not None:
                return I.call(Bound(f, v), [], {})
        if "items" in v.info:
            return len(v.info["items"])
        if "shape" in v.info:
            return mknum(v.info["shape"][0].p, "int")
        if v.ext == "range":
            return mknum(v.info["len"], "int")
    if v is None or isinstance(v, (int, Num)):
        I.err("TypeError", "object of type %s has no len()" % type(v).__name__)
    return I.top("len of %r" % (v,), v)


# -- methods on plain python values -------------------------------------------------------

def value_method(I, o, name, args, kw):
    if isinstance(o, PyList):
        if name == "append":
            I.container_write(o, "append")
            o.items.append(args[0])
            return None
        if name == "extend":
            I.container_write(o, "extend")
            it = I.tolist(args[0])
            if it is None:
                it = list(I.iterate(args[0]))
            o.items.extend(it)
            return None
        if name == "insert":
            I.container_write(o, "insert")
            if isinstance(args[0], int):
                o.items.insert(args[0], args[1])
            return None
        if name == "add":
            I.container_write(o, "add")
            if not any(I.equal(x, args[0]) is True for x in o.items):
                o.items.append(args[0])
            return None
        if name in ("pop", "popleft"):
            I.container_write(o, name)
            i = args[0] if args else (-1 if name == "pop" else 0)
            if not o.items:
                I.ev("index_error", index=i, length=0)
                from .interp import RaiseEx
                raise RaiseEx(Exc("IndexError"), I.here())
            return o.items.pop(i) if isinstance(i, int) else I.top("pop", o)
        if name in ("reverse",):
            I.container_write(o, name)
            o.items.reverse()
            return None
        if name == "sort":
            I.container_write(o, name)
            return None
        if name in ("clear",):
            I.container_write(o, name)
            o.items.clear()
            return None
        if name == "remove":
            I.container_write(o, name)
            for k, x in enumerate(o.items):
                if I.compare("Eq", x, args[0]) is True:
                    del o.items[k]
                    break
            return None
        if name == "copy":
            return PyList(o.items, o.kind)
        if name == "index":
            for k, x in enumerate(o.items):
                if I.compare("Eq", x, args[0]) is True:
                    return k
            return I.top("list.index")
        if name == "count":
            return sum(1 for x in o.items if I.compare("Eq", x, args[0]) is True)
        if name in ("union", "intersection", "difference", "issubset", "issuperset", "update",
                    "symmetric_difference"):
            b = I.tolist(args[0]) if args else []
            if b is None:
                return I.top("set op", o)
            has = lambda L, x: any(I.compare("Eq", x, y) is True for y in L)
            if name == "union":
                return PyList(o.items + [x for x in b if not has(o.items, x)], "set")
            if name == "intersection":
                return PyList([x for x in o.items if has(b, x)], "set")
            if name == "difference":
                return PyList([x for x in o.items if not has(b, x)], "set")
            if name == "issubset":
                return all(has(b, x) for x in o.items)
            if name == "issuperset":
                return all(has(o.items, x) for x in b)
            if name == "update":
                I.container_write(o, name)
                o.items.extend([x for x in b if not has(o.items, x)])
                return None
    if isinstance(o, PyDict):
        if name == "items":
            return PyList([(k, v) for k, v in o.d.items()])
        if name == "keys":
            return PyList(list(o.d.keys()))
        if name == "values":
            return PyList(list(o.d.values()))
        if name == "get":
            k = I.hashable(args[0])
            dflt = args[1] if len(args) > 1 else kw.get("default")
            if k in o.d:
                return o.d[k]
            if isinstance(args[0], (Top, AStr, Num)):
                return I.top("dict.get", *o.d.values())
            return dflt
        if name == "pop":
            I.container_write(o, "pop")
            k = I.hashable(args[0])
            if k in o.d:
                return o.d.pop(k)
            if len(args) > 1:
                return args[1]
            I.ev("key_error", key=args[0])
            from .interp import RaiseEx
            raise RaiseEx(Exc("KeyError"), I.here())
        if name == "update":
            I.container_write(o, "update")
            if args and isinstance(args[0], PyDict):
                o.d.update(args[0].d)
            elif args:
                for it in I.tolist(args[0]) or []:
                    kv = I.tolist(it)
                    if kv and len(kv) == 2:
                        o.d[I.hashable(kv[0])] = kv[1]
            o.d.update(kw)
            return None
        if name == "setdefault":
            k = I.hashable(args[0])
            if k not in o.d:
                I.container_write(o, "setdefault")
                o.d[k] = args[1] if len(args) > 1 else None
            return o.d[k]
        if name == "copy":
            return PyDict(o.d)
        if name == "clear":
            I.container_write(o, "clear")
            o.d.clear()
            return None
    if isinstance(o, (str, AStr)):
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and name in (
                "lower", "upper", "strip", "startswith", "endswith", "replace", "title", "capitalize", "lstrip",
                "rstrip", "isdigit", "find", "count", "removeprefix", "removesuffix"):
            return getattr(o, name)(*args)
        if name == "split" and isinstance(o, str):
            return PyList(o.split(*[a for a in args if isinstance(a, str)]))
        if name == "join":
            items = I.tolist(args[0])
            if isinstance(o, str) and items is not None and all(isinstance(x, str) for x in items):
                return o.join(items)
            return AStr("join")
        if name in ("startswith", "endswith", "isdigit"):
            return Cond("opaque", ("str." + name, I.freshname("s")))
        return AStr(name)
    if isinstance(o, tuple):
        if name == "index":
            for k, x in enumerate(o):
                if I.compare("Eq", x, args[0]) is True:
                    return k
        if name == "count":
            return sum(1 for x in o if I.compare("Eq", x, args[0]) is True)
        if name == "numel":
            p = prod([num_of(x) for x in o])
            from .interp import mknum
            return mknum(p, "int")
        if name == "_asdict":
            return PyDict({"values": o[0], "indices": o[1]})
    if isinstance(o, (int, Num)):
        if name == "is_integer":
            p = num_of(o)
            c = p.cval()
            if c is not None:
                return c.denominator == 1
            if A.is_int(p):
                return True
            return Cond("opaque", ("is_integer", p))
        if name in ("item", "conjugate"):
            return o
    return I.top("method %s of %r" % (name, type(o).__name__), o, *args)


# -- external objects ---------------------------------------------------------------------

def obj_walk(o, path="", seen=None):
    """Yield (path, Obj) over a module tree (registered and plain attributes)."""
    seen = seen if seen is not None else set()
    if id(o) in seen:
        return
    seen.add(id(o))
    yield path, o
    items = list(o.attrs.items())
    for k, v in items:
        p = (path + "." if path else "") + k
        if isinstance(v, Obj):
            yield from obj_walk(v, p, seen)
        elif isinstance(v, (PyList, tuple)):
            for i, x in enumerate(v.items if isinstance(v, PyList) else v):
                if isinstance(x, Obj):
                    yield from obj_walk(x, "%s[%d]" % (p, i), seen)
    for i, x in enumerate(o.info.get("items", [])):
        if isinstance(x, Obj):
            yield from obj_walk(x, (path + "." if path else "") + str(i), seen)


def registered(o, path="", seen=None):
    """Yield (path, owner, attr, value, kind, persistent) of registered state, as torch would traverse it."""
    seen = seen if seen is not None else set()
    if id(o) in seen:
        return
    seen.add(id(o))
    for k, kind in o.reg.items():
        v = o.attrs.get(k)
        p = (path + "." if path else "") + k
        if kind in ("buffer", "param"):
            yield p, o, k, v, kind, k not in o.nonpersistent
        elif isinstance(v, Obj):
            yield from registered(v, p, seen)
    for i, x in enumerate(o.info.get("items", [])):
        if isinstance(x, Obj) and x.is_module():
            yield from registered(x, (path + "." if path else "") + str(i), seen)


def move_module(I, o, dev="D"):
    for p, owner, k, v, kind, per in registered(o):
        if isinstance(v, Tensor):
            v.device = dev
            if v.base is not None:
                v.base.device = dev


def extobj_attr(I, o, name):
    """Attribute provided by external base classes (None if unknown)."""
    if name in o.info.get("attrs", {}):
        return o.info["attrs"][name]
    if o.is_module():
        if name == "training":
            return Cond("opaque", ("training", o.uid))
        if name in ("weight", "bias") and o.ext:
            p = o.attrs.get(name)
            if p is not None:
                return p
            return None if o.info.get("kw", {}).get("bias") is False and name == "bias" else I.top(name + " of layer")
        if name in NNMETH or o.ext:
            return ExtBound(o, name)
        if name == "_modules":
            return PyDict({k: v for k, v in o.attrs.items() if o.reg.get(k) == "module"})
        if name == "_buffers":
            return PyDict({k: v for k, v in o.attrs.items() if o.reg.get(k) == "buffer"})
        if name == "_parameters":
            return PyDict({k: v for k, v in o.attrs.items() if o.reg.get(k) == "param"})
        return None
    if o.ext in ("h5", "pathlib.Path"):
        return h5_attr(I, o, name)
    if o.ext and o.ext.startswith("torch.distributions"):
        r = dist_attr(I, o, name)
        if r is not None:
            return r
        return ExtBound(o, name)
    if o.cls is not None:
        for n in o.cls.ext_bases():
            if n.startswith("torch.distributions"):
                r = dist_attr(I, o, name)
                if r is not None:
                    return r
                return ExtBound(o, name) if name in DISTMETH else None
        return None
    return ExtBound(o, name)


NNMETH = {"register_buffer", "register_parameter", "add_module", "register_module", "parameters", "buffers", "modules",
          "children", "named_parameters", "named_buffers", "named_modules", "named_children", "to", "train", "eval",
          "state_dict", "load_state_dict", "apply", "double", "float", "half", "cuda", "cpu", "type",
          "requires_grad_", "zero_grad", "get_parameter", "get_buffer", "get_submodule", "extra_repr", "__call__",
          "_load_from_state_dict", "register_forward_hook", "register_load_state_dict_post_hook", "forward",
          "_save_to_state_dict", "__repr__", "share_memory", "_apply", "register_forward_pre_hook", "__setattr__",
          "register_state_dict_pre_hook", "_register_load_state_dict_pre_hook", "compile"}


def extobj_method(I, o, name, args, kw):
    if o.ext == "superext":
        return super_method(I, o, name, args, kw)
    if o.is_module():
        return module_method(I, o, name, args, kw)
    if o.ext in ("h5", "pathlib.Path"):
        return h5_method(I, o, name, args, kw)
    if o.ext == "Generator":
        return o
    if (o.ext and o.ext.startswith("torch.distributions")) or o.cls is not None:
        return dist_method(I, o, name, args, kw)
    return I.top("method %s of %r" % (name, o), *args)


def super_method(I, s, name, args, kw):
    me, cls = s.info["self"], s.info["cls"]
    if name == "__init__":
        exts = [n for n in me.cls.ext_bases() if n not in ("object", "abc.ABC", "ABC")]
        if exts:
            return ext_init(I, me, exts[0], args, kw)
        return None
    if name == "__call__" and me.is_module():
        return I.module_forward(me, args, kw)
    if me.is_module():
        return module_method(I, me, name, args, kw)
    if name == "__setattr__":
        me.attrs[args[0]] = args[1]
        return None
    if any(n.startswith("torch.distributions") for n in me.cls.ext_bases()):
        return dist_method(I, me, name, args, kw)
    return I.top("super().%s" % name, *args)


def module_method(I, o, name, args, kw):
    if name in ("register_buffer", "register_parameter", "add_module", "register_module"):
        nm = args[0] if args else kw.get("name")
        v = args[1] if len(args) > 1 else kw.get("tensor", kw.get("param", kw.get("module")))
        if not isinstance(nm, str):
            I.top("register with symbolic name")
            return None
        I.attr_write(o, nm, v)
        kind = {"register_buffer": "buffer", "register_parameter": "param"}.get(name, "module")
        if nm in o.attrs and nm not in o.reg:
            I.err("KeyError", "attribute '%s' already exists" % nm)
        if kind == "buffer" and v is not None and not isinstance(v, (Tensor, Top)):
            I.err("TypeError", "cannot assign %s to buffer %s" % (type(v).__name__, nm))
        o.attrs[nm] = v
        o.reg[nm] = kind
        per = args[2] if len(args) > 2 else kw.get("persistent", True)
        if kind == "buffer" and per is False:
            o.nonpersistent.add(nm)
        elif nm in o.nonpersistent:
            o.nonpersistent.discard(nm)
        return None
    if name in ("parameters", "buffers"):
        k = "param" if name == "parameters" else "buffer"
        return PyList([v for p, ow, a, v, kind, per in registered(o) if kind == k and v is not None])
    if name in ("named_parameters", "named_buffers"):
        k = "param" if name == "named_parameters" else "buffer"
        return PyList([(p, v) for p, ow, a, v, kind, per in registered(o) if kind == k and v is not None])
    if name == "state_dict":
        return PyDict({p: v for p, ow, a, v, kind, per in registered(o) if per and v is not None})
    if name in ("modules",):
        return PyList([x for p, x in obj_walk(o) if x.is_module()])
    if name == "named_modules":
        return PyList([(p, x) for p, x in obj_walk(o) if x.is_module()])
    if name in ("children", "named_children"):
        ch = [(k, v) for k, v in o.attrs.items() if o.reg.get(k) == "module" and isinstance(v, Obj)]
        ch += [(str(i), v) for i, v in enumerate(o.info.get("items", []))]
        return PyList([v for k, v in ch] if name == "children" else ch)
    if name in ("to", "cuda", "cpu", "double", "float", "half", "type"):
        for a in args:
            if isinstance(a, Ext) and a.name.startswith("device:"):
                move_module(I, o, device_arg(I, a))
        return o
    if name in ("train", "eval", "requires_grad_", "zero_grad", "register_forward_hook", "share_memory", "compile",
                "register_load_state_dict_post_hook", "_register_load_state_dict_pre_hook", "extra_repr"):
        if name in ("train", "eval"):
            I.ev("module_mode", obj=o)
            return o
        return None if name not in ("requires_grad_",) else o
    if name == "apply":
        for p, x in obj_walk(o):
            if x.is_module():
                I.call(args[0], [x], {})
        return o
    if name == "append" or name == "extend" or name == "insert":
        if "items" in o.info:
            if o.path is not None:
                I.ev("container_write", op=name, roots=frozenset([o.path]), obj=o)
            if name == "append":
                o.info["items"].append(args[0])
            elif name == "extend":
                o.info["items"].extend(I.tolist(args[0]) or [])
            else:
                o.info["items"].insert(args[0], args[1])
            return o
    if name in ("_load_from_state_dict",):
        I.ev("super_load_state")
        return load_own_state(I, o, *args)
    if name == "load_state_dict":
        return load_state_dict(I, o, *args, **kw)
    if name == "__call__" or name == "forward":
        return call_extobj(I, o, args, kw)
    if name == "__setattr__":
        I.attr_write(o, args[0], args[1])
        o.attrs[args[0]] = args[1]
        return None
    if name in ("get_parameter", "get_buffer", "get_submodule"):
        return o.attrs.get(args[0], I.top(name))
    return I.top("module method %s" % name, *args)


def load_own_state(I, o, sd=None, prefix="", meta=None, strict=True, missing=None, unexpected=None, errs=None, *rest):
    """torch.nn.Module._load_from_state_dict: this module's own parameters and persistent buffers."""
    if not isinstance(sd, PyDict) or not isinstance(prefix, str) or not all(isinstance(x, PyList) for x in (missing, unexpected, errs)):
        return I.top("_load_from_state_dict")
    own = {}
    for k, kind in o.reg.items():
        if kind in ("buffer", "param") and k not in o.nonpersistent and o.attrs.get(k) is not None:
            own[prefix + k] = o.attrs[k]
    for k, v in own.items():
        if k not in sd.d:
            if strict is not False:
                missing.items.append(k)
            continue
        w = sd.d[k]
        if not isinstance(v, Tensor) or not isinstance(w, Tensor):
            continue
        if v.shape is not None and w.shape is not None:
            if len(v.shape) != len(w.shape) or any(I.same(a.p - b.p) is False for a, b in zip(v.shape, w.shape)):
                errs.items.append("size mismatch for %s" % k)
                continue
        if v.base is None and v.dtype == w.dtype:
            v._node = I.nd(w)
        else:
            I.call(I.getattr(v, "copy_"), [w], {})
    if strict is not False:
        kids = {k for k, kind in o.reg.items() if kind == "module"} | {str(i) for i in range(len(o.info.get("items", [])))}
        for k in sd.d:
            if k.startswith(prefix) and k not in own and k[len(prefix):].split(".")[0] not in kids:
                unexpected.items.append(k)
    return None


def load_state_dict(I, o, state_dict=None, strict=True, assign=False):
    if not isinstance(state_dict, PyDict):
        return I.top("load_state_dict")
    lists = [PyList([]) for _ in range(3)]

    def load(m, prefix):
        I.call(I.getattr(m, "_load_from_state_dict"), [state_dict, prefix, PyDict({}), True] + lists, {})
        ch = [(k, m.attrs.get(k)) for k, kind in m.reg.items() if kind == "module"]
        ch += [(str(i), v) for i, v in enumerate(m.info.get("items", []))]
        for k, v in ch:
            if isinstance(v, Obj) and v.is_module():
                load(v, prefix + k + ".")
    load(o, "")
    if lists[2].items or strict is not False and (lists[0].items or lists[1].items):
        I.err("RuntimeError", "error(s) in loading state_dict")
    return I.top("incompatible keys")


# -- torch.nn layers --------------------------------------------------------------------------

def new_param(I, shape, path, dtype="f32"):
    t = I.tensor("param", (), path, shape, dtype, "cpu", unique=True)
    t.is_param = True
    return t


def construct_ext(I, name, args, kw):
    o = Obj(None, name)
    o.info["args"], o.info["kw"] = list(args), dict(kw)
    short = name.split(".")[-1]
    if short in ("ModuleList", "Sequential", "ParameterList"):
        if short == "Sequential":
            items = list(args)
            if len(items) == 1 and isinstance(items[0], PyDict):
                items = list(items[0].d.values())
        else:
            items = I.tolist(args[0]) if args else []
            if items is None:
                items = list(I.iterate(args[0]))
        o.info["items"] = [x for x in items]
        return o
    if short == "ModuleDict":
        d = args[0].d if args and isinstance(args[0], PyDict) else {}
        for k, v in d.items():
            o.attrs[str(k)] = v
            o.reg[str(k)] = "module"
        return o
    o.info["short"] = short
    if short.startswith("Conv") or short in ("Linear", "LayerNorm", "GroupNorm", "BatchNorm1d", "BatchNorm2d",
                                             "InstanceNorm1d", "InstanceNorm2d"):
        I.ev("layer_init", name=short)
        ws, bs = param_shapes(I, o, short)
        given = larg(o, {"Conv": 7, "Line": 2, "Laye": 3}.get(short[:4], 99), "bias", True)
        if "Norm" in short and short != "LayerNorm":
            given = True
        for nm, sh, on in (("weight", ws, True), ("bias", bs, given is not False)):
            o.attrs[nm] = new_param(I, sh, I.freshname("%s.%s" % (short, nm))) if on else None
            o.reg[nm] = "param"
        if short.startswith("BatchNorm"):
            for nm, sh, v in (("running_mean", bs, 0), ("running_var", bs, 1), ("num_batches_tracked", (), 0)):
                t = I.tensor("fill", (v,), None if sh is None else tuple(d.p for d in sh), sh,
                             "f32" if sh != () else "i64", "cpu", unique=True)
                o.attrs[nm] = t
                o.reg[nm] = "buffer"
        I.ev("rng_init", op=short)
    return o


def param_shapes(I, o, short):
    """Shapes of weight and bias, None when unknown."""
    if short.startswith("Conv"):
        nd = int(short[-2])
        cin, cout = num_of(larg(o, 0, "in_channels")), num_of(larg(o, 1, "out_channels"))
        ks, g = tup(I, larg(o, 2, "kernel_size"), nd), num_of(larg(o, 8 if "Transpose" in short else 6, "groups", 1))
        if None in ks + [cin, cout, g]:
            return None, None if cout is None else (Dim(cout),)
        a, b = (cin, cout) if "Transpose" in short else (cout, cin)
        return tuple(Dim(p) for p in [a, A.idiv(b, g)] + ks), (Dim(cout),)
    if short == "Linear":
        a, b = num_of(larg(o, 1, "out_features")), num_of(larg(o, 0, "in_features"))
        return None if None in (a, b) else (Dim(a), Dim(b)), None if a is None else (Dim(a),)
    n = larg(o, 1 if short == "GroupNorm" else 0, {"GroupNorm": "num_channels", "LayerNorm": "normalized_shape"}.get(
        short, "num_features"))
    ns = [num_of(v) for v in (I.tolist(n) or [None])] if isinstance(n, (tuple, PyList)) else [num_of(n)]
    sh = None if None in ns else tuple(Dim(p) for p in ns)
    return sh, sh


def config(v):
    """Comparable form of a layer option."""
    p = num_of(v)
    return p if p is not None else v if v is None or isinstance(v, (bool, str)) else repr(v)


def larg(o, pos, name, default=None):
    if name in o.info["kw"]:
        return o.info["kw"][name]
    if pos < len(o.info["args"]):
        return o.info["args"][pos]
    return default


def tup(I, v, n):
    if isinstance(v, (tuple, PyList)):
        return [num_of(x) for x in I.tolist(v)]
    return [num_of(v)] * n


def call_extobj(I, o, args, kw, kind=None):
    name = kind or o.ext or ""
    short = name.split(".")[-1]
    if o.cls is None and short in ("Sequential",):
        x = args[0]
        for m in o.info["items"]:
            x = I.call(m, [x], {})
        return x
    if name.startswith("torch.distributions"):
        return I.top("call of distribution", *args)
    if not name.startswith("torch.nn"):
        return I.top("call of %s" % name, *args)
    if not args:
        return I.top("layer call", *kw.values())
    x = args[0]
    if not isinstance(x, Tensor):
        return I.top("layer %s on %r" % (short, x), x)
    par = [v for v in (o.attrs.get(k) for k in ("weight", "bias", "running_mean", "running_var")) if isinstance(v, Tensor)]
    if par:
        join_device(I, [x] + par[:1], short, strict=True) if par[0].shape is not None else None
    deps = (x,) + tuple(par)
    sh = x.shape
    if short == "Unfold" and sh is not None and len(sh) not in (3, 4):
        I.err("RuntimeError", "Unfold needs a 3- or 4-d input")
    if short == "Unfold":
        ks = tup(I, larg(o, 0, "kernel_size"), 2)
        dil = tup(I, larg(o, 1, "dilation", 1), 2)
        pad = tup(I, larg(o, 2, "padding", 0), 2)
        st = tup(I, larg(o, 3, "stride", 1), 2)
        if sh is None or len(sh) != 4 or None in ks + dil + pad + st:
            return I.tensor("Unfold", deps, None, None, x.dtype, x.device)
        ls = []
        for j in (0, 1):
            n = sh[2 + j].p + 2 * pad[j] - dil[j] * (ks[j] - 1) - 1
            ls.append(A.idiv(n, st[j]) + 1)
        I.ev("conv", size=ls[1])
        c = sh[1]
        I.ev("axis_op", op="Unfold", cat="window", dims=(sh[3],), node=I.nd(x))
        kk = prod(ks)
        d1 = Dim(c.p * kk, c.lab + ((kk,) if kk.cval() != 1 else ()))
        return I.tensor("Unfold", deps, (tuple(ks), tuple(dil), tuple(pad), tuple(st)),
                        (sh[0], d1, Dim(prod(ls))), x.dtype, x.device)
    if short.startswith("ConvTranspose") or short.startswith("Conv"):
        nd = int(short[-2])
        cin, cout = num_of(larg(o, 0, "in_channels")), num_of(larg(o, 1, "out_channels"))
        ks = tup(I, larg(o, 2, "kernel_size"), nd)
        st = tup(I, larg(o, 3, "stride", 1), nd)
        pad = tup(I, larg(o, 4, "padding", 0), nd)
        g = num_of(larg(o, 8 if "Transpose" in short else 6, "groups", 1))
        if short.startswith("ConvTranspose"):
            opad = tup(I, larg(o, 5, "output_padding", 0), nd)
            dil = tup(I, larg(o, 9, "dilation", 1), nd)
        else:
            dil = tup(I, larg(o, 5, "dilation", 1), nd)
        if sh is None or None in ks + st + pad + dil or cin is None or cout is None:
            return I.tensor("layer", deps, (short, o.uid), None, x.dtype, x.device)
        if len(sh) not in (nd + 1, nd + 2):
            I.err("RuntimeError", "%s on %d-d input" % (short, len(sh)))
        ci = sh[-nd - 1]
        if I.same(ci.p - cin) is not True:
            if ci.p.is_const() and cin.is_const():
                I.err("RuntimeError", "%s expects %r channels, got %r" % (short, cin, ci))
            I.ev("dim_mismatch", a=ci, b=Dim(cin), op=short, proven=I.same(ci.p - cin) is False, k=1, shapes=(sh,))
            I.clash(ci.p, cin, short)
        dims = list(sh[:-nd - 1]) + [Dim(cout)]
        for j in range(nd):
            n = sh[len(sh) - nd + j]
            if short.startswith("ConvTranspose"):
                L = (n.p - 1) * st[j] - 2 * pad[j] + dil[j] * (ks[j] - 1) + opad[j] + 1
            else:
                L = A.idiv(n.p + 2 * pad[j] - dil[j] * (ks[j] - 1) - 1, st[j]) + 1
            dims.append(n if L == n.p else Dim(L))
        I.ev("axis_op", op=short, cat="conv", dims=tuple(sh[-nd:]), node=I.nd(x))
        if g is None or g != cin:
            I.ev("axis_op", op=short, cat="contract", dims=(ci,), node=I.nd(x))
        mode = larg(o, 10 if "Transpose" in short else 8, "padding_mode", "zeros")
        if short == "Conv1d" and mode == "zeros":
            return I.tensor("conv1d", deps, (st[0], pad[0], dil[0], g), tuple(dims), x.dtype, x.device)
        key = tuple(st + pad + dil + (opad if "Transpose" in short else []) + [g, mode])
        return I.tensor("layer", deps, (short,) + key, tuple(dims), x.dtype, x.device)
    if short == "Linear":
        fin, fout = num_of(larg(o, 0, "in_features")), num_of(larg(o, 1, "out_features"))
        if sh is None or fout is None:
            return I.tensor("layer", deps, (short, o.uid), None, x.dtype, x.device)
        if fin is not None and I.same(sh[-1].p - fin) is not True:
            if sh[-1].p.is_const() and fin.is_const():
                I.err("RuntimeError", "Linear expects %r features, got %r" % (fin, sh[-1]))
            I.ev("dim_mismatch", a=sh[-1], b=Dim(fin), op="Linear", proven=I.same(sh[-1].p - fin) is False, k=-1,
                 shapes=(sh,))
            I.clash(sh[-1].p, fin, "Linear")
        I.ev("axis_op", op="Linear", cat="contract", dims=(sh[-1],), node=I.nd(x))
        return I.tensor("layer", deps, (short,), sh[:-1] + (Dim(fout),), x.dtype, x.device)
    if short in ("ReLU", "GELU", "Tanh", "Sigmoid", "SiLU", "LeakyReLU", "ELU", "Identity", "Softplus", "Softmax",
                 "Hardtanh", "SELU"):
        ip = larg(o, 0, "inplace", False) if short in ("ReLU", "SiLU", "ELU", "LeakyReLU", "SELU") else False
        if short == "LeakyReLU":
            ip = o.info["kw"].get("inplace", False)
        if short == "Identity":
            return x
        opts = [(k, larg(o, i, k, d)) for i, (k, d) in enumerate(
            {"LeakyReLU": [("negative_slope", 0.01)], "ELU": [("alpha", 1.0)], "GELU": [("approximate", "none")],
             "Softplus": [("beta", 1.0), ("threshold", 20.0)], "Softmax": [("dim", None)],
             "Hardtanh": [("min_val", -1.0), ("max_val", 1.0)]}.get(short, []))]
        act = tuple([short] + [config(v) for k, v in opts])
        n = I.node("act", (I.nd(x),), act, sh, x.dtype, x.device)
        if ip is True:
            I.write(x, short + "(inplace)", n)
            return x
        return Tensor(Storage(), n, sh, x.dtype, x.device)
    if short in ("GLU",):
        d = larg(o, 0, "dim", -1)
        k = norm_dim(I, sh, d) if sh is not None else None
        if k is None:
            return I.tensor("act", deps, short, None, x.dtype, x.device)
        dims = tuple(Dim(A.idiv(q.p, Poly.const(2))) if j == k else q for j, q in enumerate(sh))
        I.ev("axis_op", op="GLU", cat="contract", dims=(sh[k],), node=I.nd(x))
        return I.tensor("glu", (x,), k - len(sh), dims, x.dtype, x.device)
    if short.startswith("Dropout"):
        I.ev("rng", op=short, dropout=True)
        p = larg(o, 0, "p", 0.5)
        if p == 0 or isinstance(p, Num) and p.p.is_zero():
            return x
        return I.tensor("dropout", (x,), (short, config(p), I.freshname("drop")), sh, x.dtype, x.device)
    if short.startswith("BatchNorm") or short.startswith("InstanceNorm") or short in ("LayerNorm", "GroupNorm"):
        if short.startswith("BatchNorm"):
            I.ev("batchnorm", node=I.nd(x))
        if sh is not None:
            nf = num_of(larg(o, 1 if short == "GroupNorm" else 0, "num_features" if "Norm1" in short or "Norm2" in short
                             else "num_channels"))
            if short != "LayerNorm" and nf is not None and len(sh) > 1 and I.same(sh[1].p - nf) is not True:
                if sh[1].p.is_const() and nf.is_const():
                    I.err("RuntimeError", "%s expects %r channels, got %r" % (short, nf, sh[1]))
                I.ev("dim_mismatch", a=sh[1], b=Dim(nf), op=short, proven=I.same(sh[1].p - nf) is False, k=1,
                     shapes=(sh,))
                I.clash(sh[1].p, nf, short)
            if short != "LayerNorm":
                I.ev("axis_op", op=short, cat="norm", dims=tuple(sh[2:]), node=I.nd(x))
        i = 2 if short == "GroupNorm" else 1
        key = [config(larg(o, i, "eps", 1e-5))]
        if short == "GroupNorm":
            key.append(config(larg(o, 0, "num_groups")))
        if short[:5] in ("Batch", "Insta"):
            key += [config(larg(o, 2, "momentum", 0.1)), config(larg(o, 4, "track_running_stats", short[:5] == "Batch"))]
        return I.tensor("layer", deps, (short,) + tuple(key), sh, x.dtype, x.device)
    if short.startswith("MaxPool") or short.startswith("AvgPool"):
        nd = int(short[-2])
        ks = tup(I, larg(o, 0, "kernel_size"), nd)
        st = larg(o, 1, "stride")
        st = ks if st is None else tup(I, st, nd)
        pad = tup(I, larg(o, 2, "padding", 0), nd)
        if sh is None or None in ks + st + pad:
            return I.tensor("layer", deps, (short, o.uid), None, x.dtype, x.device)
        dims = list(sh[:-nd])
        for j in range(nd):
            dims.append(Dim(A.idiv(sh[len(sh) - nd + j].p + 2 * pad[j] - ks[j], st[j]) + 1))
        key = [config(larg(o, i, k, d)) for i, (k, d) in enumerate(
            [("dilation", 1), ("return_indices", False), ("ceil_mode", False)] if short[0] == "M" else
            [("ceil_mode", False), ("count_include_pad", True)], 3)]
        return I.tensor("layer", deps, (short,) + tuple(ks + st + pad + key), tuple(dims), x.dtype, x.device)
    if short.startswith("Adaptive"):
        nd = int(short[-2])
        sz = tup(I, larg(o, 0, "output_size"), nd)
        if sh is None or None in sz:
            return I.tensor("layer", deps, (short, o.uid), None, x.dtype, x.device)
        I.ev("axis_op", op=short, cat="reduce", dims=tuple(sh[-nd:]), node=I.nd(x))
        if "Avg" in short and all(s == Poly.const(1) for s in sz):
            return call_method(I, x, "mean", [tuple(range(-nd, 0))], {"keepdim": True})
        return I.tensor("layer", deps, (short,) + tuple(sz), sh[:-nd] + tuple(Dim(s) for s in sz), x.dtype, x.device)
    if short == "Flatten":
        return OPS["flatten"](I, x, larg(o, 0, "start_dim", 1), larg(o, 1, "end_dim", -1))
    if short == "taSpectrogram":  # torchaudio.transforms.Spectrogram, centred STFT power
        nf = num_of(larg(o, 0, "n_fft", 400))
        win = larg(o, 1, "win_length")
        hop = larg(o, 2, "hop_length")
        pad = num_of(larg(o, 3, "pad", 0))
        if nf is None or pad is None:
            return I.top("layer taSpectrogram", x)
        win = nf if win is None else num_of(win)
        hop = A.idiv(win, Poly.const(2)) if hop is None else num_of(hop)
        if sh is None or hop is None or win is None:
            return I.tensor("layer", deps, (short, o.uid), None, x.dtype, x.device)
        names = ("n_fft", "win_length", "hop_length", "pad", "window_fn", "power", "normalized", "wkwargs", "center",
                 "pad_mode", "onesided")
        given = dict(zip(names, o.info["args"])) | o.info["kw"]
        rest = {"power": 2.0, "normalized": False, "center": True, "pad_mode": "reflect", "window_fn": None, "wkwargs": None}
        key = [nf, win, hop, pad]
        for k in sorted(given):
            if k not in names[:4] and not (k in rest and given[k] == rest[k]):
                v = given[k]
                key.append((k, num_of(v) if num_of(v) is not None else v if isinstance(v, (bool, str)) or v is None else
                            getattr(v, "name", None) or ("object", o.uid)))
        short, ident = "taSpectrogram", tuple(key)
        n = A.idiv(sh[-1].p + pad * 2, hop) + 1
        I.ev("axis_op", op="stft", cat="window", dims=(sh[-1],), node=I.nd(x))
        return I.tensor("layer", deps, (short, ident), tuple(sh[:-1]) + (Dim(A.idiv(nf, Poly.const(2)) + 1), Dim(n)), x.dtype,
                        x.device)
    return I.top("layer %s" % short, x)


def ext_init(I, o, base, args, kw):
    """__init__ of an external base class on a package object."""
    if base.startswith("torch.nn."):
        short = base.split(".")[-1]
        if short == "Module":
            return None
        o.info["args"], o.info["kw"] = list(args), dict(kw)
        if short in ("ModuleList", "Sequential"):
            o.info["items"] = (I.tolist(args[0]) or []) if short == "ModuleList" and args else list(args)
        else:
            x = construct_ext(I, base, args, kw)
            o.attrs.update(x.attrs)
            o.reg.update(x.reg)
        return None
    if base.startswith("torch.distributions"):
        o.info["dist"] = base
        o.info["args"], o.info["kw"] = list(args), dict(kw)
        short = base.split(".")[-1]
        names = DISTARGS.get(short, [])
        o.info["params"] = dict(zip(names, args))
        for k, v in kw.items():
            o.info["params"][k] = v
        for k, v in o.info["params"].items():
            if k not in ("validate_args", "base_distribution", "transforms", "batch_shape", "event_shape"):
                if not isinstance(v, Tensor) and (is_scalar(v)):
                    v = as_array(I, v)
                if isinstance(v, Tensor) and v.dtype is not None and CAT[v.dtype] < 2:
                    v = cast(I, v, "f32")
                o.attrs[k] = v
        return None
    return None


# -- distributions -----------------------------------------------------------------------------

DISTARGS = {"Uniform": ["low", "high"], "Normal": ["loc", "scale"], "LogNormal": ["loc", "scale"],
            "TransformedDistribution": ["base_distribution", "transforms"], "Distribution": ["batch_shape",
                                                                                            "event_shape"],
            "Categorical": ["probs"], "Bernoulli": ["probs"], "Gamma": ["concentration", "rate"],
            "Beta": ["concentration1", "concentration0"], "Exponential": ["rate"]}
DISTMETH = {"sample", "rsample", "log_prob", "cdf", "icdf", "expand", "entropy", "_validate_sample", "_extended_shape",
            "batch_shape", "event_shape", "mean", "variance", "support", "arg_constraints", "has_rsample", "__call__"}


def dist_attr(I, o, name):
    if name in o.attrs:
        return o.attrs[name]
    if name in ("batch_shape", "event_shape"):
        return ()
    if name in ("support", "arg_constraints"):
        return Ext("inherited:" + name)
    if name in ("has_rsample",):
        return True
    if name == "_validate_args":
        return Cond("opaque", ("validate_args", o.uid))
    return None


def dist_param(I, o, k, default=None):
    v = o.attrs.get(k)
    if v is None:
        v = o.info.get("params", {}).get(k, default)
    return v


def forward_transform(I, tr, x, inverse=False, y=None):
    """y = transform(x) (or its inverse); also returns log|dy/dx| at x.  None when unknown."""
    short = (tr.ext or "").split(".")[-1] if isinstance(tr, Obj) else None
    p = tr.info.get("params") or {} if isinstance(tr, Obj) else {}
    a = tr.info.get("ctor", ([], {}))[0] if isinstance(tr, Obj) else []
    k = tr.info.get("ctor", ([], {}))[1] if isinstance(tr, Obj) else {}

    def arg(i, nm, d=None):
        return a[i] if i < len(a) else k.get(nm, d)
    if short == "AffineTransform":
        loc, sc = arg(0, "loc"), arg(1, "scale")
        if inverse:
            return I.binop("truediv", I.binop("sub", x, loc), sc)
        ab = call_op(I, "abs", [sc], {}) if isinstance(sc, Tensor) else builtin(I, "abs", [sc], {})
        lg = call_op(I, "log", [ab], {}) if isinstance(ab, Tensor) else math_call(I, "log", [ab], {})
        return I.binop("add", loc, I.binop("mul", sc, x)), lg
    if short == "ExpTransform":
        if inverse:
            return call_op(I, "log", [x], {})
        return call_op(I, "exp", [x], {}), x
    if short == "PowerTransform":
        e = arg(0, "exponent")
        if inverse:
            return I.binop("pow", x, I.binop("truediv", 1, e))
        if y is None:
            y = I.binop("pow", x, e)
        lg = call_op(I, "log", [call_op(I, "abs", [I.binop("truediv", I.binop("mul", e, y), x)], {})], {})
        return y, lg
    return None


def dist_method(I, o, name, args, kw):
    base = o.info.get("dist") or o.ext or ""
    short = base.split(".")[-1]
    if name in ("sample", "rsample"):
        if o.cls is not None and name == "sample":
            c, f = o.cls.lookup("rsample")
            if f is not None:
                return I.call(Bound(f, o), args, kw)
        s = args[0] if args else kw.get("sample_shape", ())
        sz = sizes_arg(I, s if isinstance(s, (tuple, PyList)) else [s])
        if short == "TransformedDistribution":
            b, trs = dist_param(I, o, "base_distribution"), I.tolist(dist_param(I, o, "transforms"))
            if trs is None and isinstance(dist_param(I, o, "transforms"), Obj):
                trs = [dist_param(I, o, "transforms")]
            if isinstance(b, Obj) and trs is not None:
                x = I.call(I.getattr(b, "sample" if name == "sample" else "rsample"), [s], {})
                for t in trs:
                    r = forward_transform(I, t, x)
                    if r is None:
                        return I.top("transform %r" % (t,), x)
                    x = r[0]
                return x
        lo, hi = dist_param(I, o, "low"), dist_param(I, o, "high")
        if short == "Uniform" and lo is not None and hi is not None and sz is not None and None not in sz:
            ts = [v for v in (lo, hi) if isinstance(v, Tensor)]
            bs = broadcast(I, [t.shape for t in ts], "Uniform") if ts else ()
            dev = join_device(I, ts, "Uniform") if ts else "cpu"
            I.ev("rng", op="Uniform." + name)
            sh = None if bs is None else tuple(Dim(x) for x in sz) + tuple(bs)
            u = I.tensor("random", (), I.freshname("rand"), sh, "f32", dev, unique=True)
            return I.binop("add", lo, I.binop("mul", u, I.binop("sub", hi, lo)))
        I.ev("rng", op="%s.%s" % (short, name))
        mu, sd = dist_param(I, o, "loc"), dist_param(I, o, "scale")
        if short in ("Normal", "LogNormal") and None not in (mu, sd) and sz is not None and None not in sz:
            ts = [v for v in (mu, sd) if isinstance(v, Tensor)]
            bs = broadcast(I, [t.shape for t in ts], short) if ts else ()
            sh = None if bs is None else tuple(Dim(x) for x in sz) + tuple(bs)
            u = I.tensor("random", (), I.freshname("randn"), sh, "f32", join_device(I, ts, short) if ts else "cpu", unique=True)
            x = I.binop("add", mu, I.binop("mul", sd, u))
            return x if short == "Normal" else call_op(I, "exp", [x], {})
        deps = [v for v in o.attrs.values() if isinstance(v, Tensor)]
        bs = broadcast(I, [t.shape for t in deps], short) if deps else ()
        dev = join_device(I, deps, short) if deps else "cpu"
        sh = None if sz is None or None in sz or bs is None else tuple(Dim(x) for x in sz) + tuple(bs)
        return I.tensor("sample", tuple(deps), (I.freshname("smp"), base), sh, "f32", dev, unique=True)
    if name == "_extended_shape":
        return args[0] if args else ()
    if name in ("log_prob", "cdf", "icdf"):
        v = args[0] if args else kw.get("value")
        if name == "log_prob" and o.cls is not None and o.cls.lookup("support")[1] is not None:
            # torch.distributions reads ``self.support`` as a constraint
            if dist_param(I, o, "validate_args") is not False and isinstance(I.getattr(o, "support"), Bound):
                I.err("AttributeError", "support of %s is a method, not a constraint" % o.cls.name)
        if short == "TransformedDistribution" and name == "log_prob":
            b, trs = dist_param(I, o, "base_distribution"), I.tolist(dist_param(I, o, "transforms"))
            if isinstance(b, Obj) and trs is not None and isinstance(v, Tensor):
                lp, y = 0, v
                for t in reversed(trs):
                    x = forward_transform(I, t, y, inverse=True)
                    if x is None:
                        return I.top("transform %r" % (t,), v)
                    r = forward_transform(I, t, x, y=y)
                    lp = I.binop("sub", lp, r[1])
                    y = x
                return I.binop("add", lp, I.call(I.getattr(b, "log_prob"), [y], {}))
        lo, hi = dist_param(I, o, "low"), dist_param(I, o, "high")
        if short == "Uniform" and name == "log_prob" and isinstance(v, Tensor):
            lb = cast(I, call_op(I, "le", [lo, v] if isinstance(lo, Tensor) else [as_array(I, lo), v], {}), "f32")
            ub = cast(I, call_op(I, "gt", [hi, v] if isinstance(hi, Tensor) else [as_array(I, hi), v], {}), "f32")
            w = I.binop("sub", hi, lo)
            lw = call_op(I, "log", [w], {}) if isinstance(w, Tensor) else math_call(I, "log", [w], {})
            return I.binop("sub", call_op(I, "log", [I.binop("mul", lb, ub)], {}), lw)
        mu, sd = dist_param(I, o, "loc"), dist_param(I, o, "scale")
        if short in ("Normal", "LogNormal") and name == "log_prob" and None not in (mu, sd) and isinstance(v, Tensor):
            y = v if short == "Normal" else call_op(I, "log", [v], {})
            z = I.binop("sub", y, mu)
            q = I.binop("truediv", I.binop("mul", z, z), I.binop("mul", 2, I.binop("mul", sd, sd)))
            ls = call_op(I, "log", [sd], {}) if isinstance(sd, Tensor) else math_call(I, "log", [sd], {})
            c = math_call(I, "log", [math_call(I, "sqrt", [Num(PI * 2, "float")], {})], {})
            r = I.binop("sub", I.binop("sub", I.binop("sub", 0, q), ls), c)
            return r if short == "Normal" else I.binop("sub", r, y)
        if isinstance(v, Tensor):
            deps = [x for x in o.attrs.values() if isinstance(x, Tensor)]
            sh = broadcast(I, [v.shape] + [t.shape for t in deps], short)
            return I.tensor("dist." + name, (v,) + tuple(deps), (short, o.uid), sh, v.dtype,
                            join_device(I, [v] + deps, short))
        return I.top("dist." + name, *args)
    if name == "_validate_sample":
        return None
    return I.top("distribution method %s" % name, *args)


# -- h5py / pathlib -------------------------------------------------------------------------------

def h5_attr(I, o, name):
    k = o.info.get("kind")
    if k == "dataset" and name == "shape":
        return tuple(_mk(d.p) for d in o.info["shape"])
    if k == "dataset" and name == "dtype":
        return Ext("dtype:None")
    if k == "dataset" and name == "chunks":
        return Top("chunks")
    if k == "dataset" and name == "ndim":
        return len(o.info["shape"])
    if name == "attrs":
        return PyDict()
    if name in ("name", "stem", "suffix", "filename"):
        return AStr(name)
    if name == "parent":
        return o
    return ExtBound(o, name)


def _mk(p):
    from .interp import mknum
    return mknum(p, "int")


def h5_method(I, o, name, args, kw):
    if name in ("__enter__",):
        return o
    if name in ("close", "__exit__"):
        return None
    if name == "get":
        return extobj_getitem(I, o, args[0])
    if name in ("keys",):
        return Top("h5 keys")
    if name in ("exists", "is_file", "is_dir"):
        return Cond("opaque", ("path." + name, o.uid))
    if o.ext == "pathlib.Path":
        return o
    return I.top("h5 method %s" % name, *args)


def extobj_getitem(I, o, i):
    if "items" in o.info:
        items = o.info["items"]
        if isinstance(i, int):
            if -len(items) <= i < len(items):
                return items[i]
            I.ev("index_error", index=i, length=len(items))
            from .interp import RaiseEx
            raise RaiseEx(Exc("IndexError"), I.here())
        if isinstance(i, SliceV):
            s = I.concrete_slice(i)
            if s is not None:
                r = Obj(None, o.ext)
                r.info.update(o.info)
                r.info["items"] = items[s]
                return r
        return I.choose(items, i, "module list index")
    if o.ext == "torch.nn.ModuleDict" and isinstance(i, str):
        return o.attrs.get(i, I.top("ModuleDict"))
    if o.ext == "nparr_str":
        if isinstance(i, Tensor):
            return strarray(o.info["names"], i.shape, False)
        if isinstance(i, int) and o.info["whole"]:
            return I.getitem(PyList(o.info["names"]), i)
        return AStr("element")
    if o.ext == "h5":
        if o.info.get("kind") == "file":
            ds = I.opts.get("h5_dataset")
            if ds is not None:
                return ds(I, o, i)
            d = Obj(None, "h5")
            path = o.info.get("path")
            # every dataset of one file is taken to have the same length (the documented layout)
            nm = "h5len:" + path if isinstance(path, str) else I.freshname("h5len")
            if nm not in A.SYM:
                declare(nm, integer=True, lo=1)
            d.info.update(kind="dataset", shape=(Dim(Poly.atom(("s", nm))),))
            d.info["name"] = i
            d.info["file"] = path if isinstance(path, str) else None
            return d
        if o.info.get("kind") == "dataset":
            nm = o.info.get("name")
            ar = ()
            if isinstance(nm, AStr) and nm.src and isinstance(nm.src[1], (Tensor, Num)):
                ar = (I.nd(nm.src[1]),)
                nm = ("element",) + tuple(_n(x) for x in nm.src[0])
            else:
                nm = _n(nm)
            t = I.tensor("h5data", ar, (o.info.get("file"), nm), o.info["shape"],
                         o.info.get("dtype", "f64"), "cpu")
            I.ev("h5read", dataset=o, index=i)
            r = I.getitem(t, i)
            if isinstance(r, Tensor):
                r = Tensor(Storage(), I.nd(r), r.shape, r.dtype, r.device)
            return r
    return I.top("subscript of %r" % (o,))


def _n(x):
    return x if isinstance(x, (str, int)) else repr(x)


# -- external functions -----------------------------------------------------------------------------

MATHFN = {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log10", "log2",
          "log1p", "arcsin", "arccos", "arctan", "arccosh", "acosh", "fabs", "expm1", "atanh", "asinh", "arctanh",
          "deg2rad", "radians", "degrees", "cbrt"}


def math_fn(I, name, p):
    if name == "fabs":
        name = "abs"
    if name in ("deg2rad", "radians"):
        return Num(p * PI / Poly.const(180), "float")
    if name == "degrees":
        return Num(p * Poly.const(180) / PI, "float")
    return Num(A.fn_atom(name, p), "float")


def call_ext(I, name, args, kw):
    if name.startswith("builtins."):
        return builtin(I, name[9:], args, kw)
    if name.startswith("device:"):
        return I.top("call of device")
    root, _, rest = name.partition(".")
    if root in ("math", "cmath"):
        return math_call(I, rest, args, kw)
    if root == "numpy":
        return numpy_call(I, rest, args, kw)
    if root == "torch":
        return torch_call(I, rest, args, kw, name)
    if root == "h5py" and rest == "File":
        o = Obj(None, "h5")
        o.info.update(kind="file", path=args[0] if args else kw.get("name"))
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        I.ev("h5open", mode=mode, path=o.info["path"])
        return o
    if root == "pathlib":
        return Obj(None, "pathlib.Path")
    if name == "functools.partial":
        return Partial(args[0], list(args[1:]), dict(kw))
    if name in ("functools.wraps", "functools.lru_cache"):
        return Ext("builtins.identity")
    if name == "itertools.product":
        seqs = [I.tolist(a) for a in args]
        if all(s is not None for s in seqs):
            import itertools
            rep = pint(kw.get("repeat", 1)) or 1
            return PyList([tuple(x) for x in itertools.product(*seqs, repeat=rep)])
        if len(args) == 2:
            def gen():
                pass
            la, lb = builtin_len(I, args[0]), builtin_len(I, args[1])
            pa, pb = num_of(la), num_of(lb)
            if pa is not None and pb is not None:
                def elem(i):
                    return (seq_elem(I, args[0], A.idiv(i, pb)), seq_elem(I, args[1], A.mod(i, pb)))
                return AbsSeq(elem, pa * pb)
        return I.top("itertools.product")
    if name in ("itertools.chain",):
        seqs = [I.tolist(a) for a in args]
        if all(s is not None for s in seqs):
            return PyList([x for s in seqs for x in s])
        return I.top("chain")
    if name == "itertools.chain.from_iterable":
        s = I.tolist(args[0])
        if s is not None and all(I.tolist(x) is not None for x in s):
            return PyList([y for x in s for y in I.tolist(x)])
        return I.top("chain")
    if name == "itertools.pairwise":
        s = I.tolist(args[0])
        if s is not None:
            return PyList(list(zip(s, s[1:])))
        return I.top("pairwise")
    if name == "itertools.accumulate":
        s = I.tolist(args[0])
        if s:
            out = [s[0]]
            for x in s[1:]:
                out.append(I.binop("add", out[-1], x))
            return PyList(out)
        return I.top("accumulate")
    if name == "importlib.metadata.version":
        return AStr("version")
    if name in ("warnings.warn", "logging.warning", "logging.info", "logging.getLogger"):
        return None
    if root in ("collections",):
        if rest == "OrderedDict" or rest == "defaultdict":
            return builtin(I, "dict", [a for a in args if isinstance(a, (PyDict, PyList))], kw)
        if rest == "deque":
            return builtin(I, "list", args[:1], {})
    if name in ("typing.cast",):
        return args[1]
    if name in ("copy.deepcopy", "copy.copy"):
        v = args[0]
        if isinstance(v, PyList):
            return PyList(v.items, v.kind)
        if isinstance(v, PyDict):
            return PyDict(v.d)
        if isinstance(v, Tensor):
            return call_op(I, "clone", [v], {})
        return v
    if name.startswith("operator."):
        opn = rest
        if opn in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow") and len(args) == 2:
            return I.binop(opn, args[0], args[1])
        if opn == "neg":
            return I.binop("mul", args[0], -1)
    if root == "random":
        I.ev("rng", op=name)
        return I.top(name, *args)
    if root == "scipy":
        I.ev("scipy", fn=name, args=args, kw=kw)
        if rest in SCIPY_IIR:
            key = iir_key(rest, args, kw)
            if key is not None:
                return (I.tensor("scipy", (), ("signal.iirfilter", "b", key), (Dim(declare("nb", integer=True, lo=1)),), "f64", "cpu"),
                        I.tensor("scipy", (), ("signal.iirfilter", "a", key), (Dim(Poly.atom(("s", "nb"))),), "f64", "cpu"))
    if root == "torchaudio":
        I.ev("torchaudio", fn=name, args=args, kw=kw)
        t = args[0] if args else None
        if rest == "functional.filtfilt" and isinstance(t, Tensor):
            par = dict(zip(("waveform", "a_coeffs", "b_coeffs", "clamp"), args), **kw)
            ts = [par[k] for k in ("waveform", "a_coeffs", "b_coeffs") if isinstance(par.get(k), Tensor)]
            clamp = par.get("clamp", True)
            dev = join_device(I, ts, "filtfilt", strict=True)
            if t.shape is not None and len(t.shape):
                I.ev("axis_op", op="filtfilt", cat="scan", dims=(t.shape[-1],), node=I.nd(t))
            return I.tensor("filtfilt", tuple(ts), rk((clamp,), {}), t.shape, t.dtype, dev)
        if rest.startswith("transforms."):
            o = Obj(None, "torch.nn." + rest.replace("transforms.", "ta"))
            o.info["args"], o.info["kw"] = list(args), dict(kw)
            return o
    if rest in EXC_CALL or name.split(".")[-1].endswith("Error"):
        return Exc(name.split(".")[-1])
    return I.top("call %s" % name, *(list(args) + list(kw.values())))


EXC_CALL = set()
SCIPY_IIR = {
    "signal.iirfilter": (("N", "Wn", "rp", "rs", "btype", "analog", "ftype", "output", "fs"), {}),
    "signal.butter": (("N", "Wn", "btype", "analog", "output", "fs"), {"ftype": "butter", "btype": "low"}),
    "signal.cheby1": (("N", "rp", "Wn", "btype", "analog", "output", "fs"), {"ftype": "cheby1", "btype": "low"}),
    "signal.cheby2": (("N", "rs", "Wn", "btype", "analog", "output", "fs"), {"ftype": "cheby2", "btype": "low"}),
    "signal.ellip": (("N", "rp", "rs", "Wn", "btype", "analog", "output", "fs"), {"ftype": "ellip", "btype": "low"}),
    "signal.bessel": (("N", "Wn", "btype", "analog", "output", "norm", "fs"), {"ftype": "bessel", "btype": "low"}),
}
IIR_ALIAS = {"ftype": {"butterworth": "butter", "cauer": "ellip", "elliptic": "ellip", "bessel": "bessel", "chebyi": "cheby1",
                       "chebyii": "cheby2", "chebyshev i": "cheby1", "chebyshev ii": "cheby2"},
             "btype": {"bandpass": "band", "pass": "band", "bp": "band", "lowpass": "low", "lp": "low", "l": "low", "highpass": "high",
                       "hp": "high", "h": "high", "bandstop": "stop", "bs": "stop", "bands": "stop"}}


def iir_key(fn, args, kw):
    """Canonical arguments of a scipy.signal filter design call, None when they are not understood."""
    names, preset = SCIPY_IIR[fn]
    if len(args) > len(names) or any(k not in names for k in kw):
        return None
    v = dict(rp=None, rs=None, btype="band", analog=False, ftype="butter", output="ba", fs=None)
    v.update(preset)
    v.update(zip(names, args))
    v.update(kw)
    for k, m in IIR_ALIAS.items():
        if isinstance(v[k], str):
            v[k] = m.get(v[k].lower(), v[k].lower())
    if v["output"] != "ba" or "norm" in v:
        return None
    used = {"butter": (), "cheby1": ("rp",), "cheby2": ("rs",), "ellip": ("rp", "rs"), "bessel": ()}.get(v["ftype"])
    if used is not None:
        for k in ("rp", "rs"):
            if k not in used:
                v[k] = None
    return rk((), v)


def rk(args, kw):
    def k(v):
        if isinstance(v, Num):
            return v.p
        if isinstance(v, int) and not isinstance(v, bool):
            return Poly.const(v)
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, Tensor):
            return v._node
        if isinstance(v, (PyList, tuple)):
            return tuple(k(x) for x in (v.items if isinstance(v, PyList) else v))
        return type(v).__name__
    return tuple(k(a) for a in args) + tuple((n, k(v)) for n, v in sorted(kw.items()))


def seq_elem(I, s, i):
    c = i.cval()
    items = I.tolist(s)
    if items is not None:
        if c is not None and c.denominator == 1 and 0 <= c < len(items):
            return items[int(c)]
        if items and all(isinstance(x, (int, Num)) for x in items):
            return I.top("symbolic element")
        return I.top("symbolic element", *items)
    if isinstance(s, AbsSeq):
        return s.elem(i)
    if isinstance(s, Tensor):
        return I.getitem(s, _mk(i))
    return I.top("element", s)


def math_call(I, fn, args, kw):
    v = args[0] if args else None
    if isinstance(v, Tensor):
        I.ev("detach", node=I.nd(v), how="math." + fn)
        p = numnode(I, v)
        v = Num(p if p is not None else Poly.atom(("item", I.nd(v))), "float")
        args = [v] + list(args[1:])
    ps = []
    for a in args:
        if isinstance(a, Tensor):
            p = numnode(I, a)
            ps.append(p if p is not None else Poly.atom(("item", I.nd(a))))
        else:
            ps.append(num_of(a) if not isinstance(a, bool) else Poly.const(int(a)))
    if not ps or any(p is None for p in ps):
        return I.top("math.%s" % fn, *args)
    p = ps[0]
    if fn in ("ceil",):
        return _mk(A.ceil(p))
    if fn == "floor":
        return _mk(trunc_pos(I, p, floor=True))
    if fn == "trunc":
        return _mk(A.trunc(p))
    if fn == "log" and len(ps) == 2:
        return Num(A.fn_atom("log", ps[0]) / A.fn_atom("log", ps[1]), "float")
    if fn == "pow":
        return I.binop("pow", args[0], args[1])
    if fn in ("isinf",):
        return ("s", "inf") in p.atoms()
    if fn == "isnan":
        return ("s", "nan") in p.atoms()
    if fn == "isclose":
        return Cond("eq", ps[0] - ps[1])
    if fn == "prod":
        return I.top("math.prod")
    if fn in ("atan2", "hypot", "copysign", "fmod", "gcd", "comb"):
        if fn == "comb" and all(x.cval() is not None for x in ps):
            return math.comb(int(ps[0].cval()), int(ps[1].cval()))
        return Num(Poly.atom(("fn" if fn != "gcd" else "intfn", fn) + tuple(ps)), "int" if fn in ("gcd", "comb") else "float")
    if fn == "factorial" and p.cval() is not None:
        return math.factorial(int(p.cval()))
    if fn in MATHFN:
        if fn == "log2" and p.cval() is not None and p.cval() > 0:
            c = p.cval()
            if c.denominator == 1 and (int(c) & (int(c) - 1)) == 0:
                return Num(Poly.const(int(c).bit_length() - 1), "float")
        return math_fn(I, fn, p)
    return I.top("math.%s" % fn, *args)


def trunc_pos(I, p, floor=False):
    if A.is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(math.floor(c) if floor else int(c))
    # pull an integer-valued summand out when the value is known non-negative
    q = Poly({m: c for m, c in p.t.items() if A.is_int(Poly({m: c}))})
    rest = p - q
    if not q.is_zero() and (floor or (I.ge0(p) and I.ge0(rest))):
        return q + A.trunc(rest)
    return A.trunc(p)


def strarray(names, shape, whole):
    o = Obj(None, "nparr_str")
    o.info.update(names=list(names), shape=shape, whole=whole)
    return o


def unique_str(I, v, kw):
    """np.unique over a drawn array of known names: every name occurs with a positive multiplicity."""
    names = list(v.info["names"])
    out = [strarray(names, (Dim(Poly.const(len(names))),), True)]
    if v.info["shape"] is None:
        return I.top("np.unique")
    total = prod([d.p for d in v.info["shape"]])
    cnts = []
    for k in range(len(names) - 1):
        nm = I.freshname("mult")
        cnts.append(declare(nm, integer=True, lo=1))
    rest = total
    for c in cnts:
        rest = rest - c
    I.facts.add_ge0(rest - 1)
    cnts.append(rest)
    inv = I.tensor("unique_inv", (), (I.freshname("inv"), len(names), tuple(cnts), total), v.info["shape"], "i64", "cpu",
                   unique=True)
    if kw.get("return_inverse") is True:
        out.append(inv)
    if kw.get("return_counts") is True:
        out.append(PyList([_mk(c) for c in cnts]))
    return tuple(out) if len(out) > 1 else out[0]


def where_inverse(I, v):
    """np.where(inverse == k): the positions of the k-th distinct value; as many as its multiplicity."""
    if not isinstance(v, Tensor):
        return None
    n = I.nd(v)
    if n.op != "eq" or len(n.args) != 2:
        return None
    a, b = n.args
    if num_of_node(b) is None:
        a, b = b, a
    while a.op in ("reshape", "view", "flatten") and a.args:
        a = a.args[0]
    k = num_of_node(b)
    if a.op != "unique_inv" or k is None or k.cval() is None or v.shape is None or len(v.shape) != 1:
        return None
    cnts = a.attr[2]
    if not 0 <= int(k.cval()) < len(cnts):
        return None
    return (I.tensor("unique_pos", (n,), (int(k.cval()), a.attr[3]), (Dim(cnts[int(k.cval())]),), "i64", "cpu"),)


def num_of_node(n):
    return n.attr if n.op == "num" and isinstance(n.attr, Poly) else None


def numpy_call(I, fn, args, kw):
    v = args[0] if args else None
    if fn in ("array", "asarray", "atleast_1d", "ascontiguousarray"):
        if isinstance(v, Obj) and v.ext == "nparr_str":
            return v
        if isinstance(v, (PyList, tuple)):
            its = I.tolist(v)
            if its and all(isinstance(x, (str, AStr)) for x in its):
                return strarray(its, (Dim(Poly.const(len(its))),), True)
        if isinstance(v, Obj) and v.ext == "h5":
            return I.getitem(v, SliceV(None, None, None))
        d = kw.get("dtype")
        r = OPS["as_tensor"](I, v, dtype=d) if not isinstance(v, Top) else I.top("np.array", v)
        if fn == "array" and isinstance(v, Tensor):
            return call_op(I, "clone", [v], {})
        return r
    if fn.startswith("random."):
        I.ev("rng", op="numpy." + fn)
        short = fn.split(".")[-1]
        size = kw.get("size")
        if short == "choice":
            a = args[0]
            size = size if size is not None else (args[1] if len(args) > 1 else None)
            n = num_of(a) if is_scalar(a) else num_of(builtin_len(I, a))
            sz = sizes_arg(I, size if isinstance(size, (tuple, PyList)) else [size]) if size is not None else []
            rep = kw.get("replace", True)
            prob = kw.get("p")
            I.ev("npchoice", n=n, size=sz, p=prob, a=a, replace=rep)
            deps = (prob,) if isinstance(prob, Tensor) else ()
            sh = None if sz is None or None in sz else tuple(Dim(s) for s in sz)
            if is_scalar(a):
                return I.tensor("npchoice", deps, (I.freshname("ch"), n, repr(rep)), sh, "i64", "cpu", unique=True)
            if isinstance(a, Obj) and a.ext == "nparr_str":
                return strarray(a.info["names"], sh, False)
            src = I.deps(a)
            t = I.tensor("npchoice_of", deps + tuple(src), (I.freshname("ch"), n, oid(a), repr(rep)), sh, "i64", "cpu", unique=True)
            return t
        if short == "randint":
            r = OPS["randint"](I, *args, **{k: v2 for k, v2 in kw.items() if k in ("low", "high", "size")})
            return r
        if short in ("uniform", "normal", "rand", "random", "permutation", "shuffle"):
            if short == "permutation" and is_scalar(v):
                return OPS["randperm"](I, v)
            sz = sizes_arg(I, size if isinstance(size, (tuple, PyList)) else [size]) if size is not None else None
            return I.tensor("random", tuple(I.asnode(a) for a in args if is_scalar(a) or isinstance(a, Tensor)),
                            (short, I.freshname("np")), None if sz is None else tuple(Dim(s) for s in sz),
                            "f64", "cpu", unique=True)
        return I.top("numpy." + fn, *args)
    if fn in ("int64", "int32", "float64", "float32") and args:
        if is_scalar(v):
            return builtin(I, "int" if fn.startswith("int") else "float", [v], {})
        if isinstance(v, Tensor):
            return cast(I, v, DT[fn])
    if args and all(is_scalar(a) for a in args) and fn in MATHFN | {"ceil", "floor", "trunc", "power", "arctan2", "abs",
                                                                  "absolute", "round", "sign", "maximum", "minimum"}:
        if fn in ("ceil", "floor", "trunc"):
            return Num(num_of(math_call(I, fn, args, kw)), "float")
        if fn == "power":
            return I.binop("pow", *args)
        if fn in ("abs", "absolute"):
            return builtin(I, "abs", args, {})
        if fn == "round":
            return builtin(I, "round", args, {})
        if fn == "arctan2":
            return math_call(I, "atan2", args, kw)
        if fn in ("maximum", "minimum"):
            return builtin(I, fn[:3], args, {})
        if fn == "sign":
            return Num(A.fn_atom("sign", num_of(v)), "float")
        return math_call(I, {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "arccosh": "acosh"}.get(fn, fn),
                         args, kw)
    if fn in ("zeros", "ones", "empty"):
        r = OPS[fn](I, [args[0]] if args else [kw.get("shape")], dtype=kw.get("dtype") or Ext("torch.float64"))
        return r
    if fn in ("concatenate", "stack", "hstack", "vstack"):
        ax = kw.get("axis", args[1] if len(args) > 1 else 0)
        return OPS["cat" if fn != "stack" else "stack"](I, args[0], ax)
    if fn == "repeat":
        t = TT(I, v)
        reps = args[1] if len(args) > 1 else kw.get("repeats")
        return OPS["repeat_interleave"](I, t, reps, kw.get("axis"))
    if fn == "unique" and isinstance(v, Obj) and v.ext == "nparr_str":
        return unique_str(I, v, kw)
    if fn == "unique":
        return OPS["unique"](I, TT(I, v), return_inverse=kw.get("return_inverse", False) is True,
                             return_counts=kw.get("return_counts", False) is True)
    if fn == "where" and len(args) == 1:
        r = where_inverse(I, v)
        if r is not None:
            return r
        return OPS["where"](I, TT(I, v))
    if fn in ("arange", "linspace", "logspace"):
        k2 = {k: x for k, x in kw.items() if k in ("dtype", "step")}
        if fn != "arange" and len(args) < 3 and "num" in kw:
            args = list(args) + [kw["num"]]
        r = OPS[fn](I, *args, **k2)
        return r
    if fn == "prod" and isinstance(v, (tuple, PyList)):
        out = 1
        for x in I.tolist(v):
            out = I.binop("mul", out, x)
        return out
    if fn in ("sum", "mean", "max", "min", "amax", "amin") and isinstance(v, (PyList, tuple)):
        its = I.tolist(v)
        if its and all(is_scalar(x) for x in its):
            if fn == "mean":
                return I.binop("truediv", builtin(I, "sum", [v], {}), len(its))
            return builtin(I, fn.replace("a", "", 1) if fn.startswith("a") else fn, [v], {})
    fn2 = {"power": "pow", "absolute": "abs", "arctan2": "atan2", "concatenate": "cat", "fft.rfft": "fft.rfft",
           "transpose": "t"}.get(fn, fn)
    if fn2 in OPS:
        args = [TT(I, a) if isinstance(a, (PyList,)) and fn2 not in ("cat", "stack") else a for a in args]
        if args and is_scalar(args[0]):
            args[0] = as_array(I, args[0])
        return call_op(I, fn2, args, kw)
    return I.top("numpy.%s" % fn, *(list(args) + list(kw.values())))


ALIASES_T = {"special.expit": "sigmoid", "special.erf": "erf", "special.erfinv": "erfinv", "linalg.inv": "linalg.inv",
             "fft.fftfreq": "fft.fftfreq", "arctan": "atan", "functional.norm": "norm"}


def torch_call(I, fn, args, kw, full):
    fn = ALIASES_T.get(fn, fn)
    if fn.startswith("functional."):
        fn = "nn." + fn if ("nn." + fn) in OPS else fn.split(".", 1)[1]
    if fn in ("Size",):
        it = I.tolist(args[0]) if args else []
        return tuple(it) if it is not None else I.top("Size", *args)
    if fn in ("device",):
        return Ext("device:%s" % device_arg(I, args[0])) if args else Ext("device:None")
    if fn in ("no_grad", "enable_grad", "inference_mode", "set_grad_enabled", "autograd.no_grad"):
        return Obj(None, "torch." + fn)
    if fn in ("nn.Parameter", "nn.parameter.Parameter"):
        t = args[0] if args else kw.get("data")
        if isinstance(t, Tensor):
            n = I.node("param", (I.nd(t),), I.freshname("param"), t.shape, t.dtype, t.device, unique=True)
            r = Tensor(Storage(), n, t.shape, t.dtype, t.device)
            r.is_param = True
            return r
        return I.top("Parameter", *args)
    if fn.startswith("nn.init."):
        t = args[0] if args else kw.get("tensor")
        nm = fn.split(".")[-1]
        if isinstance(t, Tensor):
            det = nm in ("constant_", "zeros_", "ones_", "eye_")
            if not det:
                I.ev("rng", op=nm, init=True)
            n = I.node("init", tuple(I.asnode(a) for a in args[1:]), I.freshname(nm), t.shape, t.dtype, t.device)
            I.write(t, nm, n)
            return t
        return I.top(fn, *args)
    if fn.startswith("nn.") and fn.split(".")[-1][:1].isupper() and fn not in OPS:
        return construct_ext(I, "torch.nn." + fn.split(".")[-1], args, kw)
    if fn.startswith("distributions."):
        short = fn.split(".")[-1]
        if short[:1].isupper():
            o = Obj(None, "torch.distributions." + short)
            ext_init(I, o, "torch.distributions." + short, args, kw)
            o.info["ctor"] = (list(args), dict(kw))
            return o
        o = Obj(None, "torch.distributions.constraint." + short)
        o.info["args"], o.info["kw"] = list(args), dict(kw)
        o.info["constraint"] = short
        return o
    if fn.startswith("utils.data"):
        if fn.endswith("get_worker_info"):
            h = I.opts.get("worker_info")
            if h is not None:
                return h(I)
            if not I.truth(Cond("opaque", ("dataloader worker",))):
                return None
            nw = declare("num_workers", integer=True, lo=1)
            wid = declare("worker_id", integer=True, lo=0)
            I.facts.add_ge0(nw - 1 - wid)
            o = Obj(None, "WorkerInfo")
            o.attrs.update(num_workers=_mk(nw), id=_mk(wid), seed=I.top("worker seed"))
            return o
        return I.top(full, *args)
    if fn == "Generator":
        return Obj(None, "Generator")
    if fn in ("manual_seed", "seed", "set_default_dtype", "set_rng_state", "set_num_threads", "random.manual_seed",
              "cuda.manual_seed", "set_default_device"):
        I.ev("global_torch", fn=fn)
        return None
    if fn in ("finfo", "iinfo"):
        o = Obj(None, "finfo")
        for k in ("eps", "max", "min", "tiny"):
            o.attrs[k] = Num(Poly.atom(("s", "finfo." + k)), "float")
        return o
    if fn in ("is_grad_enabled",):
        return True
    if fn in ("jit.script", "jit.export", "compile"):
        return args[0]
    if fn in ("result_type", "promote_types"):
        return Ext("dtype:None")
    if fn in ("Tensor.size",):
        return call_method(I, args[0], "size", args[1:], kw)
    if fn.startswith("Tensor."):
        return call_method(I, args[0], fn[7:], args[1:], kw)
    if fn in ("cuda.is_available", "backends.mps.is_available"):
        return Cond("opaque", (fn,))
    if fn.endswith("_") and fn[:-1] in OPS:
        return call_method(I, args[0], fn, args[1:], kw)
    if fn.startswith("nn.functional."):
        short = fn.split(".")[-1]
        if fn in OPS:
            return call_op(I, fn, args, kw)
        if short in ("relu", "gelu", "silu", "tanh", "sigmoid", "softplus") and isinstance(args[0], Tensor):
            o = Obj(None, "torch.nn." + {"relu": "ReLU", "gelu": "GELU", "silu": "SiLU"}.get(short, short.capitalize()))
            o.info["args"], o.info["kw"] = list(args[1:]), dict(kw)
            return call_extobj(I, o, [args[0]], {})
        return I.top(full, *(list(args) + list(kw.values())))
    if fn in OPS:
        return call_op(I, fn, args, kw)
    return I.top("torch.%s" % fn, *(list(args) + list(kw.values())))


# -- builtins ---------------------------------------------------------------------------------------

def isinst(I, v, t):
    """isinstance on abstract values: True / False / Cond."""
    if isinstance(t, (tuple, PyList)):
        res = False
        for x in I.tolist(t):
            r = isinst(I, v, x)
            if r is True:
                return True
            if r is not False:
                res = r
        return res
    if t is None:
        return v is None
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            return v.cls is not None and t in v.cls.mro()
        if isinstance(v, Top):
            return Cond("opaque", ("isinst", oid(v), t.qual), False, v.deps)
        return False
    if not isinstance(t, Ext):
        return Cond("opaque", ("isinst", I.freshname("t")))
    n = t.name
    s = n.split(".")[-1]
    if isinstance(v, Top):
        return Cond("opaque", ("isinst", oid(v), n), False, v.deps)
    if n in ("torch.Tensor", "torch.FloatTensor", "jaxtyping.Float"):
        return isinstance(v, Tensor)
    if s == "Parameter":
        return isinstance(v, Tensor) and v.is_param
    if n == "numpy.ndarray":
        return False
    if n == "builtins.int":
        return isinstance(v, int) or (isinstance(v, Num) and v.kind == "int") or isinstance(v, Cond)
    if n == "builtins.float":
        return isinstance(v, Num) and v.kind == "float"
    if n == "builtins.bool":
        return isinstance(v, (bool, Cond))
    if n == "builtins.complex":
        return isinstance(v, complex) or (isinstance(v, Num) and v.kind == "complex")
    if s in ("Number", "Real"):
        return is_scalar(v)
    if s == "Integral":
        return isinstance(v, int) or (isinstance(v, Num) and v.kind == "int")
    if n == "builtins.str":
        return isinstance(v, (str, AStr))
    if n == "builtins.list":
        return isinstance(v, PyList) and v.kind == "list"
    if n == "builtins.tuple":
        return isinstance(v, tuple)
    if n == "builtins.dict" or s in ("Mapping", "OrderedDict"):
        return isinstance(v, PyDict)
    if n == "builtins.set":
        return isinstance(v, PyList) and v.kind == "set"
    if s in ("Sequence", "Iterable", "Collection", "Sized", "Container"):
        return isinstance(v, (PyList, tuple, str, AbsSeq, PyDict)) or (isinstance(v, Tensor) and s != "Sequence")
    if s == "Callable":
        return isinstance(v, (Func, Bound, Cls, ExtBound, Partial)) or (isinstance(v, Obj) and (v.is_module() or (
            v.cls is not None and v.cls.lookup("__call__")[1] is not None))) or (
                isinstance(v, Ext) and not v.name.startswith(("device:", "dtype:")))
    if s == "Path":
        return isinstance(v, Obj) and v.ext == "pathlib.Path"
    if isinstance(v, Obj):
        if v.cls is not None:
            if any(b == n for b in v.cls.ext_bases()):
                return True
            if n == "torch.nn.Module":
                return v.cls.is_module()
            if n.startswith("torch.distributions") and s == "Distribution":
                return any(b.startswith("torch.distributions") for b in v.cls.ext_bases())
            return False
        if v.ext == n:
            return True
        if n == "torch.nn.Module":
            return v.is_module()
        if s == "Distribution":
            return bool(v.ext and v.ext.startswith("torch.distributions"))
        if s == "Constraint":
            return "constraint" in v.info
        return v.ext.split(".")[-1] == s if v.ext else False
    if isinstance(v, (int, Num, str, PyList, PyDict, tuple, Tensor, Func, Bound)) or v is None:
        return False
    return Cond("opaque", ("isinst", oid(v), n))


def minmax(I, which, vals, kw):
    if not vals:
        if "default" in kw:
            return kw["default"]
        I.err("ValueError", "%s() of empty sequence" % which)
    best = vals[0]
    keyf = kw.get("key")
    if keyf is not None:
        return I.top("%s with key" % which, *vals)
    if len(vals) > 1 and all(isinstance(v, Tensor) and v.shape == () for v in vals):
        ps = [numnode(I, v) for v in vals]
        if all(p is not None and p.cval() is not None for p in ps):
            cs = [p.cval() for p in ps]
            return vals[cs.index((min if which == "min" else max)(cs))]
        return OPS[which](I, OPS["stack"](I, tuple(vals)))
    for v in vals[1:]:
        if isinstance(best, Tensor) or isinstance(v, Tensor):
            c = I.compare("Lt" if which == "min" else "Gt", v, best)
            best = v if I.truth(c) else best
            continue
        a, b = num_of(best) if not isinstance(best, bool) else Poly.const(int(best)), num_of(v)
        if a is None or b is None:
            if isinstance(best, str) and isinstance(v, str):
                best = min(best, v) if which == "min" else max(best, v)
                continue
            return I.top(which, *vals)
        g = I.ge0(a - b)
        if g is True:
            best = v if which == "min" else best
        elif g is False:
            best = best if which == "min" else v
        else:
            if ("s", "inf") in (a - b).atoms():
                c = I.compare("Lt" if which == "min" else "Gt", v, best)
                best = v if I.truth(c) else best
                continue
            # fold into a case split: keeps later linear reasoning exact
            c = Cond("ge", a - b)
            r = I.truth(c)
            best = (v if which == "min" else best) if r else (best if which == "min" else v)
    return best


def to_int(I, v):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Num):
        return _mk(trunc_pos(I, v.p))
    if isinstance(v, Tensor):
        p = numnode(I, v)
        I.ev("detach", node=I.nd(v), how="int()")
        if p is not None:
            return _mk(trunc_pos(I, p))
        if v.dtype in ("i64", "i32"):
            return Num(Poly.atom(("intfn", "item", I.nd(v))), "int")
        return Num(A.trunc(Poly.atom(("item", I.nd(v)))), "int")
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.err("ValueError", "int(%r)" % v)
    if v is None or isinstance(v, (PyList, PyDict)):
        I.err("TypeError", "int() of %r" % (v,))
    return I.top("int()", v)


def builtin(I, fn, args, kw):
    v = args[0] if args else None
    from .interp import tname, RaiseEx, EXCNAMES
    if fn in EXCNAMES:
        return Exc(fn, v if isinstance(v, str) else "")
    if fn == "identity":
        return v
    if fn == "len":
        return builtin_len(I, v)
    if fn == "range":
        a = [0, None, 1]
        if len(args) == 1:
            a[1] = args[0]
        else:
            a[0], a[1] = args[0], args[1]
            if len(args) > 2:
                a[2] = args[2]
        ps = [num_of(x) for x in a]
        if any(isinstance(x, Num) and x.kind == "float" for x in a):
            I.err("TypeError", "range() of float")
        if any(p is None for p in ps):
            if any(isinstance(x, Tensor) for x in a):
                ps = [numnode(I, x) if isinstance(x, Tensor) else p for x, p in zip(a, ps)]
                if any(p is None for p in ps):
                    ps = [Poly.atom(("intfn", "item", I.nd(x))) if isinstance(x, Tensor) and p is None else p
                          for x, p in zip(a, ps)]
            if any(p is None for p in ps):
                return I.top("range", *args)
        cs = [p.cval() for p in ps]
        if None not in cs:
            r = range(*[int(c) for c in cs])
            if len(r) <= 256:
                return PyList(list(r), "range")
        s, e, st = ps
        n = A.idiv(e - s + st - 1, st) if st.cval() != 1 else e - s
        return AbsSeq(lambda i: _mk(s + st * i), n)
    if fn in ("list", "tuple", "set", "frozenset"):
        if not args:
            return () if fn == "tuple" else PyList([], "set" if fn != "list" else "list")
        if isinstance(v, Tensor) and v.shape is not None and len(v.shape):
            c = v.shape[0].p.cval()
            if c is None:
                return AbsSeq(lambda i: I.getitem(v, _mk(i)), v.shape[0].p)
        items = I.tolist(v)
        if items is None:
            if isinstance(v, AbsSeq):
                return v
            if isinstance(v, Obj):
                items = list(I.iterate(v))
            else:
                return I.top(fn, v)
        if fn == "tuple":
            return tuple(items)
        if fn == "list":
            return PyList(items)
        return I.make_set(items)
    if fn == "dict":
        d = {}
        if isinstance(v, PyDict):
            d.update(v.d)
        elif v is not None:
            its = I.tolist(v)
            if its is None:
                return I.top("dict()", v)
            for it in its:
                kv = I.tolist(it)
                if kv and len(kv) == 2:
                    d[I.hashable(kv[0])] = kv[1]
        d.update(kw)
        return PyDict(d)
    if fn == "dict.fromkeys":
        return PyDict({I.hashable(k): (args[1] if len(args) > 1 else None) for k in I.tolist(v) or []})
    if fn == "int":
        return to_int(I, v) if args else 0
    if fn == "float":
        if isinstance(v, str):
            if "inf" in v:
                return Num(Poly.atom(("s", "inf")) * (-1 if v.startswith("-") else 1), "float")
            try:
                return Num(Poly.const(float(v)), "float")
            except ValueError:
                return Num(Poly.atom(("s", "nan")), "float")
        if isinstance(v, Tensor):
            p = numnode(I, v)
            I.ev("detach", node=I.nd(v), how="float()")
            return Num(p if p is not None else Poly.atom(("item", I.nd(v))), "float")
        if is_scalar(v) and not isinstance(v, Cond):
            return Num(Poly.const(int(v)) if isinstance(v, bool) else num_of(v), "float")
        if v is None or isinstance(v, (PyList, PyDict, tuple)):
            I.err("TypeError", "float() of %s" % tname(v))
        return I.top("float()", v)
    if fn == "bool":
        return I.truth(v)
    if fn == "str" or fn == "repr" or fn == "format":
        return v if isinstance(v, str) else (str(v) if isinstance(v, int) else AStr("str"))
    if fn == "abs":
        if isinstance(v, Tensor):
            return OPS["abs"](I, v)
        p = num_of(v)
        if p is not None:
            s = I.ge0(p)
            if s is True:
                return v
            if s is False:
                return I.binop("mul", v, -1)
            return Num(Poly.atom(("intfn" if A.is_int(p) else "fn", "abs", p)) if A.is_int(p) else A.fn_atom("abs", p),
                       "int" if A.is_int(p) else "float")
        return I.top("abs", v)
    if fn == "round":
        p = num_of(v)
        if p is not None:
            if A.is_int(p):
                return _mk(p)
            c = p.cval()
            if c is not None:
                return round(c) if len(args) < 2 else Num(Poly.const(round(c, pint(args[1]) or 0)), "float")
            if len(args) > 1:
                return Num(Poly.atom(("fn", "roundn", p)), "float")
            return Num(Poly.atom(("intfn", "round", p)), "int")
        if isinstance(v, Tensor):
            return OPS["round"](I, v)
        return I.top("round", v)
    if fn in ("min", "max"):
        if len(args) == 1:
            if isinstance(v, Tensor):
                n = I.nd(v)
                if n.op == "const" and isinstance(n.attr, tuple) and n.attr:
                    ps = [q for p in n.attr for q in (p if isinstance(p, tuple) else (p,))]
                    if all(isinstance(p, Poly) and p.cval() is not None for p in ps):
                        best = (min if fn == "min" else max)(p.cval() for p in ps)
                        return I.tensor("num", (), Poly.const(best), (), v.dtype, v.device)
                return OPS[fn](I, v)
            items = I.tolist(v)
            if items is None:
                if isinstance(v, AbsSeq):
                    nm = I.freshname(fn)
                    e = v.elem(declare(nm, integer=True, lo=0))
                    return e if not is_scalar(e) else Num(Poly.atom(("intfn", fn, num_of(e))), "int")
                return I.top(fn, v)
            return minmax(I, fn, items, kw)
        return minmax(I, fn, list(args), kw)
    if fn == "sum":
        items = I.tolist(v)
        if isinstance(v, Tensor) and items is None:
            return OPS["sum"](I, v, 0)
        if items is None:
            if isinstance(v, AbsSeq):
                e = v.elem(declare(I.freshname("i"), integer=True, lo=0))
                if isinstance(e, (int,)):
                    return _mk(v.length * e)
                p = num_of(e)
                if p is not None:
                    return Num(Poly.atom(("intfn" if A.is_int(p) else "fn", "sum", p, v.length)),
                               "int" if A.is_int(p) else "float")
                if isinstance(e, Tensor):
                    return I.tensor("sumseq", (e,), v.length, e.shape, e.dtype, e.device)
            return I.top("sum", v)
        out = args[1] if len(args) > 1 else kw.get("start", 0)
        for x in items:
            out = I.binop("add", out, x)
        return out
    if fn == "sorted":
        items = I.tolist(v)
        if items is None:
            if isinstance(v, AbsSeq):
                return v
            return I.top("sorted", v)
        if all(isinstance(x, (int, str)) for x in items) and not kw.get("key"):
            try:
                return PyList(sorted(items, reverse=kw.get("reverse") is True))
            except TypeError:
                pass
        return PyList(items)
    if fn == "zip":
        ls = [I.tolist(a) for a in args]
        if all(l is not None for l in ls):
            if kw.get("strict") is True and len(set(map(len, ls))) > 1:
                I.err("ValueError", "zip() strict length mismatch")
            if len(set(map(len, ls))) > 1:
                I.ev("zip_truncates", lens=tuple(map(len, ls)))
            return PyList([tuple(x) for x in zip(*ls)])
        # symbolic
        lens = [num_of(builtin_len(I, a)) if not isinstance(a, Top) else None for a in args]
        n = next((x for x in lens if x is not None and not x.is_const()), None) or next(
            (x for x in lens if x is not None), None)
        if n is None:
            return I.top("zip", *args)
        return AbsSeq(lambda i: tuple(seq_elem(I, a, i) for a in args), n)
    if fn == "enumerate":
        st = args[1] if len(args) > 1 else kw.get("start", 0)
        items = I.tolist(v)
        if items is not None:
            return PyList([(I.binop("add", st, k) if st != 0 else k, x) for k, x in enumerate(items)])
        if isinstance(v, AbsSeq):
            return AbsSeq(lambda i: (I.binop("add", st, _mk(i)), v.elem(i)), v.length)
        if isinstance(v, Tensor) and v.shape:
            return AbsSeq(lambda i: (I.binop("add", st, _mk(i)), I.getitem(v, _mk(i))), v.shape[0].p)
        if isinstance(v, Obj):
            return PyList([(k, x) for k, x in enumerate(I.iterate(v))])
        return I.top("enumerate", v)
    if fn == "reversed":
        items = I.tolist(v)
        if items is not None:
            return PyList(list(reversed(items)))
        if isinstance(v, AbsSeq):
            return AbsSeq(lambda i: v.elem(v.length - 1 - i), v.length)
        return I.top("reversed", v)
    if fn == "map":
        ls = [I.tolist(a) for a in args[1:]]
        if all(l is not None for l in ls):
            return PyList([I.call(v, list(x), {}) for x in zip(*ls)])
        if len(args) == 2 and isinstance(args[1], AbsSeq):
            s = args[1]
            return AbsSeq(lambda i: I.call(v, [s.elem(i)], {}), s.length)
        return I.top("map", *args)
    if fn == "filter":
        items = I.tolist(args[1])
        if items is not None:
            return PyList([x for x in items if I.truth(x if v is None else I.call(v, [x], {}))])
        return I.top("filter", *args)
    if fn in ("any", "all"):
        if isinstance(v, Tensor):
            return OPS[fn](I, v)
        items = I.tolist(v)
        if items is None:
            items = list(I.iterate(v))
        for x in items:
            t = I.truth(x)
            if fn == "any" and t:
                return True
            if fn == "all" and not t:
                return False
        return fn == "all"
    if fn == "isinstance":
        return isinst(I, v, args[1])
    if fn == "issubclass":
        return isinstance(v, Cls) and args[1] in v.mro()
    if fn == "callable":
        return isinst(I, v, Ext("typing.Callable"))
    if fn == "hasattr":
        o, n = args
        if isinstance(o, Obj) and isinstance(n, str):
            if n in o.attrs:
                return True
            if o.cls is not None and o.cls.lookup(n)[1] is not None:
                return True
            if o.ext is None:
                return False
        if isinstance(o, Tensor):
            return True
        if isinstance(o, (Num, int, float, complex, str, bytes, tuple)) or o is None:
            return hasattr(0.0 if isinstance(o, Num) and not A.is_int(o.p) else 0 if isinstance(o, Num) else o, n)
        return Cond("opaque", ("hasattr", oid(o), n))
    if fn == "getattr":
        d = args[2] if len(args) > 2 else KeyError
        if isinstance(args[1], str):
            return I.getattr(v, args[1], d)
        return I.top("getattr", v)
    if fn == "setattr":
        if isinstance(args[1], str):
            I.setattr(v, args[1], args[2])
        return None
    if fn == "divmod":
        return (I.binop("floordiv", *args), I.binop("mod", *args))
    if fn == "pow":
        return I.binop("pow", args[0], args[1])
    if fn == "slice":
        a = list(args)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    if fn == "iter":
        if isinstance(v, Obj) and v.cls is not None:
            c, f = v.cls.lookup("__iter__")
            if f is not None:
                v = I.call(Bound(f, v), [], {})
        if isinstance(v, PyList):
            return PyList(v.items, "iterator")
        if isinstance(v, tuple):
            return PyList(list(v), "iterator")
        o = Obj(None, "iterator")
        o.info["src"] = v
        return o
    if fn == "next":
        if isinstance(v, PyList):
            if v.items:
                return v.items.pop(0)
            if len(args) > 1:
                return args[1]
            raise RaiseEx(Exc("StopIteration"), I.here())
        if isinstance(v, Obj) and v.ext == "iterator":
            src = v.info["src"]
            if isinstance(src, AbsSeq):
                nm = I.freshname("it")
                return src.elem(declare(nm, integer=True, lo=0))
            return I.top("next of iterator", src)
        return I.top("next", v)
    if fn == "print":
        return None
    if fn == "type":
        if isinstance(v, Obj):
            return v.cls or Ext(v.ext)
        if isinstance(v, Tensor):
            return Ext("torch.Tensor")
        if isinstance(v, int):
            return Ext("builtins.int")
        if isinstance(v, str):
            return Ext("builtins.str")
        return I.top("type", v)
    if fn == "id":
        return I.top("id")
    if fn == "vars":
        return PyDict(v.attrs) if isinstance(v, Obj) else I.top("vars")
    if fn == "complex":
        a = num_of(args[0])
        b = num_of(args[1]) if len(args) > 1 else Poly.const(0)
        if a is not None and b is not None:
            return Num(a + b * Poly.atom(A.I_ATOM), "complex")
    if fn == "property":
        return Property(v)
    if fn == "super":
        return I.top("bare super")
    return I.top("builtin %s" % fn, *args)
