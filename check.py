#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--thorough]   decide one property from /repo's current source."""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    import json
    from sa import framework as F
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args[0]
    mod = F.module_for(pid)
    R, cov, new, old, gone, wall = F.run_property(pid, tier, seed)
    F.write_evidence(pid, tier, seed, mod.LEVEL, R, cov, new, old, gone, wall)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for k, what in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for i, f in enumerate(new):
        p = os.path.join(rdir, "%s-%d.json" % (pid, i))
        json.dump(f.as_dict(), open(p, "w"), indent=1, default=str)
        print("%s:%s in %s: [%s] %s" % (f.file, f.line, f.func, f.rule, f.msg))
        if "--keys" in sys.argv:
            print("   key=%s" % f.key)
        print("VIOLATION property=%s replay=%s" % (pid, p))
    print("%s: %d entry points, %d paths, %d functions, %d violations, %d known findings, %.1fs"
          % (pid, len(R.entries), R.stats.get("paths", 0), len(R.functions), len(new), len(old), wall))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # no verdict
        import traceback
        traceback.print_exc()
        print("NO VERDICT: %s" % e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
