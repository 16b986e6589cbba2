"""P02  Calls are free of hidden state; randomness only where it is declared."""
from ..framework import Finding

LEVEL = "other"
RULE = ("effect analysis: from the moment a component is constructed, every attribute, buffer, container, class and "
        "module-global write reached by a call is collected; any write to state that existed before the call is a "
        "violation unless the operation is a fit; random draws (torch, numpy, python, distributions) are collected the "
        "same way and are violations in operations that are not samplers")
# operations whose documented purpose is to store something: (function, attribute)
STORES = {("SingleQTransform.compute_qtiles", "qtiles"), ("SingleQTransform.compute_qtiles", "input_ndim")}


def pre(roots):
    return sorted(r for r in roots if r.startswith(("state:", "global:")))


def inplace_on_fresh(v):
    return not pre(v.data["roots"])


def entry(e, results, out):
    t = e.tags
    for r in results:
        for v in r.events:
            k = v.kind
            if k in ("inplace", "container_write", "inplace_meta", "tensor_attr_write", "attr_write", "class_write",
                     "global_write", "global_torch"):
                if v.phase != "call" and k in ("attr_write", "inplace", "container_write", "inplace_meta",
                                               "tensor_attr_write"):
                    # during construction only globals and pre-existing objects matter
                    rs = [x for x in v.data.get("roots", ()) if x.startswith("global:")]
                    if rs and k != "attr_write":
                        out.add(Finding.at(v, "global-state-written", ",".join(rs), "constructor writes shared state %s" % rs, e.name))
                    continue
                out.see("write_sites_examined")
                if k == "global_torch":
                    out.add(Finding.at(v, "global-setting-changed", v.data["fn"], "changes a process-wide torch setting: " + v.data["fn"], e.name))
                    continue
                if k == "global_write":
                    out.add(Finding.at(v, "global-state-written", v.data["name"], "writes the module global " + v.data["name"], e.name))
                    continue
                if k == "class_write":
                    out.add(Finding.at(v, "class-state-written", v.data["attr"], "writes the class attribute " + str(v.data["attr"]), e.name))
                    continue
                rs = pre(v.data["roots"])
                if not rs:
                    continue
                if t.get("fit"):
                    continue
                if k == "attr_write":
                    a = v.data["attr"]
                    if (v.func, a) in STORES or any((c.rsplit(":", 1)[0], a) in STORES for c in v.chain):
                        out.see("documented_stores")
                        continue
                    out.add(Finding.at(v, "state-written-by-call", a, "a call stores into self.%s, so later calls depend on it" % a, e.name))
                else:
                    op = v.data.get("op") or v.data.get("attr") or "write"
                    out.add(Finding.at(v, "state-mutated-by-call", "%s %s" % (op, ",".join(rs)), "%s modifies %s during a call" % (op, ", ".join(rs)), e.name))
            elif k == "rng":
                if v.phase != "call" or v.data.get("init"):
                    continue
                out.see("random_draws_examined")
                if v.data.get("dropout"):
                    if not t.get("dropout"):
                        out.add(Finding.at(v, "undeclared-randomness", v.data["op"], "dropout in a component without a dropout option", e.name))
                    continue
                if not t.get("random"):
                    out.add(Finding.at(v, "undeclared-randomness", v.data["op"], "draws random numbers (%s) in an operation that is not a sampler" % v.data["op"], e.name))
            elif k == "module_mode" and v.phase == "call":
                out.add(Finding.at(v, "mode-changed", "mode", "a call switches a module's train/eval mode", e.name))


def run(R):
    R.catalogue()
    return dict(explanation="Abstract execution of every public operation. " + RULE, rule=RULE)
