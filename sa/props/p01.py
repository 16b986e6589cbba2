"""P01  A call never modifies the tensors, lists or dictionaries its caller passed in."""
from ..framework import Finding

LEVEL = "other"
RULE = ("effect analysis over the alias graph: every in-place tensor operation, item assignment, augmented assignment, "
        "container mutation and attribute write is traced to the storage it reaches; a write that reaches the storage "
        "of a caller's argument (through any chain of views, aliases, attributes or containers) is a violation")


def argroots(roots):
    return sorted(r for r in roots if r.startswith("arg:"))


def entry(e, results, out):
    for r in results:
        for v in r.events:
            if v.kind in ("inplace", "container_write", "inplace_meta", "tensor_attr_write"):
                out.see("write_sites_examined")
                out.member("write_sites", (v.file, v.func, v.line))
                rs = argroots(v.data["roots"])
                if rs:
                    op = v.data.get("op") or v.data.get("attr") or "write"
                    out.add(Finding.at(v, "argument-mutated", "%s on caller's %s" % (op, ",".join(x[4:] for x in rs)),
                                       "%s writes into the caller's argument %s" % (op, ", ".join(x[4:] for x in rs)), e.name))


def run(R):
    R.catalogue()
    return dict(explanation="Every public operation of the package is abstractly executed over symbolic shapes and all "
                            "branch outcomes; " + RULE,
                rule=RULE, write_sites=len(R.sets["write_sites"]))
