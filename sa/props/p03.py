"""P03  Tensors stay on the device of the data and of the module."""
from ..framework import Finding
from ..values import Tensor, PyList, PyDict, Node

LEVEL = "other"
RULE = ("device dataflow: arguments and registered parameters and buffers live on a symbolic device D, every tensor a "
        "function creates lives where its device argument says (the cpu without one); an operation that combines tensors "
        "of D with non-scalar tensors of the cpu, a conversion of a tensor of D to numpy, and a tensor "
        "returned on the cpu by a call whose data lives on D are violations")


def tensors(v, depth=0):
    if isinstance(v, Tensor):
        yield v
    elif depth < 4:
        xs = v if isinstance(v, tuple) else v.items if isinstance(v, PyList) else v.d.values() if isinstance(v, PyDict) and hasattr(v, "d") else ()
        for x in xs:
            yield from tensors(x, depth + 1)


def from_device(n):
    seen, st = set(), [n]
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.device == "D":
            return True
        st += [a for a in n.args if isinstance(a, Node)]
    return False


def entry(e, results, out):
    for r in results:
        for v in r.events:
            if v.kind == "device_mix":
                out.add(Finding.at(v, "devices-mixed", v.data["op"],
                                   "%s combines tensors on %s" % (v.data["op"], " and ".join(sorted({str(d) for d in v.data["devices"]}))), e.name))
            elif v.kind == "device_numpy" and v.phase == "call":
                out.add(Finding.at(v, "device-tensor-to-numpy", "numpy", "converts a tensor on D to numpy", e.name))
        if r.exc is not None or r.aborted:
            continue
        # results belong on D when the data does, or when a dataset was told to host its data there
        placed = any(t.device == "D" for t in r.ctx.inputs.values() if isinstance(t, Tensor)) or (
            e.tags.get("dataset") and not e.tags.get("host"))
        for t in tensors(r.value):
            out.see("returned_tensors")
            if t.device == "cpu" and (placed or from_device(t._node)):
                q = next(iter(r.interp.subjects), ("ml4gw", e.name))
                out.add(Finding("result-left-device", q[0], q[1], "cpu", "a result for data on D is returned on the cpu", None, e.name))


def run(R):
    R.catalogue(lambda e: not e.tags.get("pair") or e.tags.get("dev"), pairs=True)
    return dict(explanation="Abstract execution of every public operation. " + RULE, rule=RULE,
                returned_tensors=R.count["returned_tensors"])
