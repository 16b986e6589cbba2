"""Developer aid: python3 tools_spec.py P11 [regex]   run the reference comparison of one property."""
import collections, os, re, sys, time
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from sa.analysis import Analysis
from sa import entries, specs, spec
from sa.framework import Out
specs.load()
prop = sys.argv[1]; pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
an = Analysis(os.environ.get("SA_ROOT", "/repo")); t0 = time.time(); tot = collections.Counter(); seen = set()
for e in entries.load():
    if not pat.search(e.name) or not any(p.search(e.name) for p, _ in spec.REG.get(prop, ())):
        continue
    t = time.time()
    rs = an.run(e.name, e.spec, maxpaths=e.tags.get("maxpaths", 96))
    out = Out()
    spec.judge(prop, e, rs, out)
    tot.update(out.count)
    print("%-70s %5.2fs paths=%d %s" % (e.name, time.time() - t, len(rs), dict(out.count)))
    for f in out.findings:
        if f.key not in seen or "-v" in sys.argv:
            print("    !!", f.file, f.func, f.msg[:200])
        seen.add(f.key)
    for n in out.notes[:3]:
        print("    ..", n[:200])
print(dict(tot), "%.1fs" % (time.time() - t0))
