"""Developer aid: run catalogue entries and print outcomes.  python3 tools_run.py [regex] [-v]"""
import collections
import re
import sys
import time
sys.path.insert(0, "/verif")
from sa.analysis import Analysis  # noqa
from sa import entries  # noqa

pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
verbose = "-v" in sys.argv
an = Analysis("/repo")
t0 = time.time()
for e in entries.load():
    if not pat.search(e.name):
        continue
    t = time.time()
    rs = an.run(e.name, e.spec, maxpaths=e.tags.get('maxpaths', 96))
    dt = time.time() - t
    n = collections.Counter("ok" if r.exc is None and r.aborted is None else ("abort:" + r.aborted if r.aborted else "exc:%s" % r.exc.name) for r in rs)
    tops = sum(len(r.interp.tops) for r in rs)
    bad = [str(r.exc.name) + ":" + str(getattr(r.exc, "msg", "")) + "@%s" % (getattr(r, "exc_loc", None),) for r in rs if r.exc is not None and r.phase is not None]
    print("%-70s %5.2fs tops=%d %s" % (e.name, dt, tops, dict(n)))
    if verbose:
        for r in rs:
            print("     ", r.value, r.exc, r.exc and r.exc.msg, r.aborted, getattr(r, "exc_loc", None))
            print("         dec:", [(d[0][1:], d[1], d[2]) for d in r.decisions])
            print("         ev:", [(v.kind, v.line) for v in r.events if v.kind not in ("axis_op", "slice", "branch", "inplace", "attr_read")])
            for tp in r.interp.tops:
                print("         TOP", tp)
print(an.stats, "%.1fs" % (time.time() - t0))
for k, v in sorted(an.top_log.items(), key=lambda kv: -kv[1])[:40]:
    print("TOP", v, k)
