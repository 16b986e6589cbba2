"""P04  Results stay connected to the gradient of their data and parameters."""
from ..framework import Finding
from ..algebra import Poly
from ..values import Tensor, Node, Num
from .p03 import tensors

LEVEL = "other"
RULE = ("gradient dataflow: no path of the value graph from a floating point argument or a trainable parameter to a "
        "floating point result passes through a detach (.detach, .data, .item, .tolist, .numpy, float(), int(), "
        "torch.tensor of a tensor) or through a value computed with gradients disabled; paths through integers, "
        "booleans, comparisons, rounding and sorting indices carry no gradient and do not count")
NO_GRAD = {"round", "floor", "ceil", "trunc", "sign", "argmax", "argmin", "argsort", "searchsorted", "isnan", "isinf",
           "isfinite", "randn", "rand", "like", "full", "shape", "size", "bernoulli", "empty"}
FLOAT = {"f16", "bf16", "f32", "f64", "c64", "c128", None}


def scalar_nodes(p, depth=0):
    """Tensors whose items a polynomial is made of."""
    if depth > 6:
        return
    for m, _ in getattr(p, "t", {}).items() if isinstance(getattr(p, "t", None), dict) else ():
        for a in m:
            yield from atom_nodes(a, depth + 1)


def atom_nodes(a, depth):
    if isinstance(a, Node):
        yield a
    elif isinstance(a, Poly):
        yield from scalar_nodes(a, depth)
    elif isinstance(a, Num):
        yield from scalar_nodes(a.p, depth)
    elif isinstance(a, tuple) and depth <= 6:
        if a and a[0] in ("intfn", "trunc", "floor", "ceil"):
            return
        for x in a:
            yield from atom_nodes(x, depth + 1)


def crossing(root, sources):
    """The first detached node on a gradient path from the sources to root."""
    seen, st = set(), [(root, None)]
    while st:
        n, cut = st.pop()
        if (id(n), cut is not None) in seen or n.dtype not in FLOAT or n.op in NO_GRAD:
            continue
        seen.add((id(n), cut is not None))
        if n.op == "param" or n.uid in sources:
            if cut is not None:
                return cut, n
            continue
        if n.memo.get("design"):
            continue        # filter coefficients are designed once, by scipy
        if n.op == "detach" or n.memo.get("nograd"):
            cut = cut or n
        for a in n.args:
            if isinstance(a, Node):
                st.append((a, cut))
            else:
                for x in atom_nodes(a, 0):
                    st.append((x, cut or n))
        for x in atom_nodes(n.attr, 0) if isinstance(n.attr, (tuple, Poly, Num)) else ():
            st.append((x, cut or n))
    return None


def entry(e, results, out):
    for r in results:
        if r.exc is not None or r.aborted:
            continue
        src = {r.interp.nd(t).uid for t in r.ctx.inputs.values() if isinstance(t, Tensor) and t.dtype in FLOAT}
        for t in tensors(r.value):
            if t.dtype not in FLOAT:
                continue
            out.see("returned_tensors")
            hit = crossing(r.interp.nd(t), src)
            if hit:
                n, s = hit
                q = n.loc if n.loc else None
                out.add(Finding("gradient-cut", q[0], q[1], n.op, "%s of %s is detached on its way to the result" % (n.op, s.attr or s.op), q[2], e.name))


def run(R):
    R.catalogue(lambda e: not e.tags.get("pair") or e.tags.get("dev"), pairs=True)
    return dict(explanation="Abstract execution of every public operation. " + RULE, rule=RULE,
                returned_tensors=R.count["returned_tensors"])
