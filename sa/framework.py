"""Property clients: findings, parallel catalogue runs, known findings, evidence."""
from __future__ import annotations

import collections
import importlib
import json
import multiprocessing as mp
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Finding:
    """A violation of a rule by a construct.  The key is free of line numbers."""

    def __init__(self, rule, file, func, detail, msg, line=None, entry=None, chain=None):
        self.rule, self.file, self.func, self.detail = rule, file, func, detail
        self.msg, self.line, self.entry, self.chain = msg, line, entry, chain

    @property
    def key(self):
        return "%s|%s|%s|%s" % (self.rule, self.file, self.func, self.detail)

    def as_dict(self):
        return dict(rule=self.rule, file=self.file, function=self.func, detail=self.detail, line=self.line,
                    message=self.msg, entry=self.entry, call_chain=self.chain)

    @classmethod
    def at(cls, ev, rule, detail, msg, entry=None):
        return cls(rule, ev.file, ev.func, detail, msg, ev.line, entry,
                   list(ev.chain)[-8:])


class Out:
    """What one worker returns for one entry."""

    def __init__(self):
        self.findings = []
        self.count = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.notes = []

    def add(self, f):
        self.findings.append(f)

    def see(self, name, n=1):
        self.count[name] += n

    def member(self, name, x):
        self.sets[name].add(x)


_AN = None
_PROP = None
_ENTS = None
_TIER = "quick"


def _work(i):
    global _AN
    from .analysis import Analysis
    from .interp import AnalysisBroken
    if _AN is None:
        _AN = Analysis(os.environ.get("SA_ROOT", "/repo"))
    an = _AN
    e = _ENTS[i]
    out = Out()
    t0 = time.time()
    before = dict(an.stats)
    results = an.run(e.name, e.spec, maxpaths=e.tags.get("maxpaths", 96) * (4 if _TIER == "thorough" else 1),
                     deadline=120 if _TIER == "quick" else 400)
    broken = []
    try:
        _PROP.entry(e, results, out)
    except AnalysisBroken:
        raise
    except Exception as k:  # a hole in the analyser: the entry is reported as not covered
        out.see("paths_not_covered", len(results))
        broken.append("%s: %s" % (type(k).__name__, k))
    st = {k: an.stats[k] - before[k] for k in an.stats}
    st["returning"] = sum(1 for r in results if r.exc is None and r.aborted is None)
    st["raising"] = sum(1 for r in results if r.exc is not None)
    funcs = set(an.functions)
    an.functions.clear()
    aborted = [r.aborted for r in results if r.aborted] + broken
    tops = collections.Counter()
    for r in results:
        for t in r.interp.tops:
            tops["%s %s: %s" % (t[0], t[1], t[3])] += 1
    return i, e.name, out.findings, out.count, dict(out.sets), st, funcs, aborted, tops, out.notes, time.time() - t0


class Runner:
    def __init__(self, prop, tier):
        from .analysis import Analysis
        self.prop, self.tier = prop, tier
        self.an = Analysis(os.environ.get("SA_ROOT", "/repo"))
        self.findings = []
        self.count = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.stats = collections.Counter()
        self.functions = set()
        self.aborted = []
        self.tops = collections.Counter()
        self.notes = []
        self.entries = []

    def catalogue(self, filt=None, jobs=None, pairs=False):
        global _ENTS, _PROP, _AN, _TIER
        from . import entries
        ents = [e for e in entries.load() if (filt is None or filt(e)) and (pairs or not e.tags.get("pair"))]
        _ENTS, _PROP, _AN, _TIER = ents, self.prop, self.an, self.tier
        jobs = jobs or min(8, os.cpu_count() or 1)
        if not ents:
            raise RuntimeError("no entry point selected")
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs) as pool:
            res = list(pool.imap_unordered(_work, range(len(ents)), chunksize=1))
        res.sort(key=lambda r: r[0])
        for i, name, fs, cnt, sets, st, funcs, ab, tops, notes, dt in res:
            for f in fs:
                f.entry = f.entry or name
            self.findings += fs
            self.count.update(cnt)
            for k, v in sets.items():
                self.sets[k] |= v
            self.stats.update(st)
            self.functions |= funcs
            self.aborted += ["%s: %s" % (name, a) for a in ab]
            self.tops.update(tops)
            self.notes += notes
            self.entries.append((name, st["paths"], st["returning"]))
        return res


def load_known():
    known, fixed = collections.defaultdict(dict), collections.defaultdict(list)
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", ln)
            if m:
                known[m.group(1)][m.group(2)] = m.group(3)
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)$", ln)
            if m:
                fixed[m.group(1)].append((m.group(2), m.group(3)))
    return known, fixed


def module_for(pid):
    if os.path.exists(os.path.join(HERE, "sa", "props", pid.lower() + ".py")):
        return importlib.import_module("sa.props." + pid.lower())
    from .props.specprop import SpecProp
    return SpecProp(pid)


def run_property(pid, tier, seed):
    t0 = time.time()
    mod = module_for(pid)
    R = Runner(mod, tier)
    cov = mod.run(R) or {}
    # one report per construct
    byk = collections.OrderedDict()
    for f in R.findings:
        byk.setdefault(f.key, f)
    known, fixed = load_known()
    kn = known.get(pid, {})
    new = [f for k, f in byk.items() if k not in kn]
    old = [(k, kn[k]) for k in byk if k in kn]
    gone = [k for k in kn if k not in byk]
    return R, cov, new, old, gone, time.time() - t0


def quals(prog):
    import ast
    out = set()

    def rec(mod, node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add((mod, pre + n.name))
                rec(mod, n, pre + n.name + ".<locals>.")
            elif isinstance(n, ast.ClassDef):
                rec(mod, n, pre + n.name + ".")
            else:
                rec(mod, n, pre)
    for m in prog.mods.values():
        rec(m.name, m.tree, "")
    return out


def write_evidence(pid, tier, seed, level, R, cov, new, old, gone, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=len(new))
    c = dict(cov)
    c.setdefault("entry_points", len(R.entries))
    c.setdefault("paths", R.stats.get("paths", 0))
    c["paths_returning"] = R.stats.get("returning", 0)
    c["paths_raising"] = R.stats.get("raising", 0)
    c["call_sites_evaluated"] = R.stats.get("callsites", 0)
    c["functions_analysed"] = len(R.functions)
    c["functions_in_package"] = R.an.funcs_total
    c["functions_not_reached"] = sorted("%s:%s" % f for f in quals(R.an.prog) - R.functions)[:80] if R.functions else []
    c["paths_not_covered"] = sorted(set(R.aborted))[:20]
    c["unknown_operations"] = ["%dx %s" % (n, t) for t, n in R.tops.most_common(15)]
    c["counters"] = dict(sorted(R.count.items()))
    c["known_findings_seen"] = [k for k, _ in old]
    c["known_findings_not_seen"] = gone
    d["coverage"] = c
    tmp = os.path.join(HERE, "evidence", "%s.%d.tmp" % (pid, os.getpid()))
    json.dump(d, open(tmp, "w"), indent=1, default=str, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
