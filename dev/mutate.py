"""Mutation survey (development only): mutate package files and list the mutants no given check reports.

usage: mutate.py PIDS FILES [n] [seed]      PIDS, FILES comma separated, files relative to ml4gw/
"""
import ast, copy, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MUT_REPO", "/repo")
OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
       ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NAMES = {"sin": "cos", "cos": "sin", "exp": "expm1", "log": "log1p", "sum": "mean", "mean": "sum", "max": "min", "min": "max",
         "real": "imag", "floor": "ceil", "ceil": "floor", "rfft": "fft", "zeros": "ones", "ones": "zeros"}


def sites(tree):
    """(description, function applying the mutation in place)."""
    out = []
    inner = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.arguments)):
            inner.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.AnnAssign,)) and n.annotation:
            inner.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef):
            for x in n.decorator_list + ([n.returns] if n.returns else []):
                inner.update(id(y) for y in ast.walk(x))
    for n in ast.walk(tree):
        if id(n) in inner:
            continue
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in OPS:
            out.append(("op", n, lambda n=n: setattr(n, "op", OPS[type(n.op)]())))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
            def sw(n=n):
                n.left, n.right = n.right, n.left
            out.append(("swap", n, sw))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(("cmp", n, lambda n=n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(("unary", n, lambda n=n: (setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else
                                                setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("bool", n, lambda n=n: setattr(n, "value", not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append(("const", n, lambda n=n: setattr(n, "value", n.value + 1 if isinstance(n.value, int) else n.value * 1.01 or 0.01)))
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            out.append(("name", n, lambda n=n: setattr(n, "attr", NAMES[n.attr])))
        if isinstance(n, ast.BoolOp):
            out.append(("boolop", n, lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def sa(n=n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(("args", n, sa))
        if isinstance(n, ast.Call) and n.keywords:
            k = n.keywords[-1]
            if k.arg:
                out.append(("dropkw", n, lambda n=n: n.keywords.pop()))
        if isinstance(n, ast.If):
            out.append(("ifnot", n, lambda n=n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and id(st) not in inner and not (
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not isinstance(n, ast.Module):
                        out.append(("drop", st, lambda b=b, i=i: b.__setitem__(i, ast.copy_location(ast.Pass(), b[i]))))
    return out


def main():
    pids, files = sys.argv[1].split(","), sys.argv[2].split(",")
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
    only = os.environ.get("MUT_FUNC")
    jobs = []
    for f in files:
        src = open("%s/ml4gw/%s" % (REPO, f)).read()
        tree = ast.parse(src)
        for i, (kind, node, _) in enumerate(sites(tree)):
            if os.environ.get("MUT_RAISE") and not any(
                    isinstance(g, ast.If) and any(isinstance(z, ast.Raise) for z in g.body) and (
                        g.lineno <= node.lineno <= max(g.lineno, getattr(g.test, "end_lineno", g.lineno)))
                    for g in ast.walk(tree)):
                continue
            if only:
                fs = [g for g in ast.walk(tree) if isinstance(g, (ast.FunctionDef, ast.ClassDef)) and g.lineno <= node.lineno <= g.end_lineno]
                if not any(g.name in only.split(",") for g in fs):
                    continue
            jobs.append((f, i, kind, getattr(node, "lineno", 0)))
    total = len(jobs)
    rnd.shuffle(jobs)
    jobs = jobs[:n]

    def run(job):
        f, i, kind, line = job
        src = open("%s/ml4gw/%s" % (REPO, f)).read()
        tree = ast.parse(src)
        s = sites(tree)
        before = ast.unparse(s[i][1])
        s[i][2]()
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        if new == ast.unparse(ast.parse(src)):
            return job, "same", before, ""
        d = "/tmp/mut_%d_%s_%d" % (os.getpid(), f.replace("/", "_"), i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO + "/ml4gw", d + "/ml4gw", ignore=shutil.ignore_patterns("__pycache__"))
        open("%s/ml4gw/%s" % (d, f), "w").write(new)
        try:
            for p in pids:
                r = subprocess.run([sys.executable, "/verif/check.py", p], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, SA_ROOT=d))
                if "VIOLATION" in r.stdout:
                    return job, "caught", before, p
                if r.returncode:
                    return job, "BROKEN", before, (r.stderr or r.stdout)[-300:]
        except subprocess.TimeoutExpired:
            return job, "TIMEOUT", before, ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        try:
            after = ast.unparse(s[i][1])
        except Exception:
            after = "?"
        return job, "missed", before, after
    count = {}
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
        for job, res, before, after in ex.map(run, jobs):
            count[res] = count.get(res, 0) + 1
            if res not in ("caught", "same"):
                f, i, kind, line = job
                print("%s:%d %s %s | %s -> %s" % (f, line, kind, res, before.replace("\n", " ")[:90], after.replace("\n", " ")[:90]), flush=True)
    print(total, "sites;", count)


main()
