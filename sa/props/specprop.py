"""Properties decided by comparing the value graph of every path with a reference formula (sa/specs)."""
from .. import spec, specs
from ..framework import Finding  # noqa

RULE = ("global value numbering modulo the field axioms: every path of every listed public operation is abstractly "
        "executed over symbolic shapes and inputs into a value graph; the graph of each returned tensor element is "
        "numbered and compared with the number of the documented formula for that element, for all sizes and all "
        "inputs at once; shape, dtype where it matters and which inputs are rejected are compared too")


class SpecProp:
    LEVEL = "other"
    RULE = RULE

    def __init__(self, pid):
        self.pid = pid
        specs.load()

    def entry(self, e, results, out):
        spec.judge(self.pid, e, results, out)

    def run(self, R):
        pats = spec.REG[self.pid]
        R.catalogue(lambda e: any(p.search(e.name) for p, _ in pats), pairs=True)
        ents = [n for n, _, _ in R.entries]
        return dict(explanation="Reference formulas for %d configurations of the public operations named in the property, "
                                "compared symbolically with what the source computes on every path. %s." % (len(ents), RULE),
                    rule=RULE, obligations=R.count["obligations"], discharged=R.count["discharged"],
                    undecided=R.count["undecided"], configurations=ents[:150],
                    undecided_notes=sorted(set(R.notes))[:30])
