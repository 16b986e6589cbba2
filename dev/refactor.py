"""Development aid: apply one behaviour-preserving rewriting to every site of the package and list which checks alarm.

usage: refactor.py OUTDIR RULE   -- writes a copy of /repo/ml4gw with RULE applied everywhere to OUTDIR/ml4gw
"""
import ast
import os
import shutil
import sys


class T(ast.NodeTransformer):
    n = 0

    def hit(self):
        self.n += 1


def is_simple(e):
    return isinstance(e, (ast.Name, ast.Constant, ast.Attribute))


class Commute(T):
    """a * b -> b * a and a + b -> b + a for operands that are not strings or lists."""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        bad = any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                  for x in ast.walk(n))
        if isinstance(n.op, (ast.Mult, ast.Add)) and not bad:
            # unpack of calls with side effects is not considered
            self.hit()
            n.left, n.right = n.right, n.left
        return n


class Temp(T):
    """return f(x) -> result = f(x); return result"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        self.body(f)
        return f

    def body(self, f):
        for node in ast.walk(f):
            for name in ("body", "orelse"):
                b = getattr(node, name, None)
                if isinstance(b, list):
                    out = []
                    for s in b:
                        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                            out.append(ast.copy_location(ast.Assign([ast.Name("refactored_result", ast.Store())], s.value), s))
                            out.append(ast.copy_location(ast.Return(ast.Name("refactored_result", ast.Load())), s))
                            self.hit()
                        else:
                            out.append(s)
                    setattr(node, name, out)


class Rename(T):
    """rename every local variable"""
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        args |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                loc -= set(x.names)
        inner = [g for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f]
        if inner:
            return f
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "renamed_" + x.id
                self.hit()
        return f


class Invert(T):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            self.hit()
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        self.hit()
        return n


class Compare(T):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.M[type(n.ops[0])]()]
            self.hit()
        return n


class Aug(T):
    """x += e -> x = x + e for plain local names that were freshly computed (not parameters)"""
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args}
        self.generic_visit(f)
        for node in ast.walk(f):
            for name in ("body", "orelse"):
                b = getattr(node, name, None)
                if isinstance(b, list):
                    for k, s in enumerate(b):
                        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id not in args:
                            b[k] = ast.copy_location(ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)), s)
                            self.hit()
        return f


class Size(T):
    """x.size(k) -> x.shape[k], x.unsqueeze(-1) -> x[..., None], x.mT -> x.transpose(-1, -2)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "size" and len(n.args) == 1 and not n.keywords:
            self.hit()
            return ast.Subscript(ast.Attribute(n.func.value, "shape", ast.Load()), n.args[0], ast.Load())
        if isinstance(n.func, ast.Attribute) and n.func.attr == "unsqueeze" and len(n.args) == 1 and isinstance(n.func.value, (ast.Name, ast.BinOp, ast.Attribute)) \
                and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "torch"):
            k = ast.unparse(n.args[0])
            if k in ("-1", "0", "1"):
                self.hit()
                e = {"-1": "(..., None)", "0": "(None,)", "1": "(slice(None), None)"}[k]
                sl = ast.parse({"-1": "x[..., None]", "0": "x[None]", "1": "x[:, None]"}[k], mode="eval").body.slice
                return ast.Subscript(n.func.value, sl, ast.Load())
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "mT" and isinstance(n.ctx, ast.Load):
            self.hit()
            return ast.Call(ast.Attribute(n.value, "transpose", ast.Load()), [ast.Constant(-1), ast.Constant(-2)], [])
        return n


class Method(T):
    """torch.f(x, ...) -> x.f(...) for elementwise functions of a name; torch.square etc."""
    F = {"sqrt", "exp", "log", "cos", "sin", "abs", "clamp", "round", "ceil", "maximum", "minimum", "diff", "cumsum", "acos", "arccos", "conj"}

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "torch" \
                and n.func.attr in self.F and n.args and isinstance(n.args[0], (ast.Name, ast.BinOp)):
            self.hit()
            return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), n.args[1:], n.keywords)
        return n


class Power(T):
    """x ** 2 -> x * x for names, x ** 0.5 -> torch.sqrt is not applied (may be a number)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            self.hit()
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class Minus(T):
    """a - b -> -(b - a)... as a + (-b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            self.hit()
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class Div(T):
    """a / b -> a * (1 / b) is not exact in floats but is the same function of the reals"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant):
            self.hit()
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


class Comp(T):
    """x = [e for v in it] -> x = []; for v in it: x.append(e)"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for node in ast.walk(f):
            for name in ("body", "orelse"):
                b = getattr(node, name, None)
                if isinstance(b, list):
                    out = []
                    for s in b:
                        v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
                        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs:
                            g, t = v.generators[0], s.targets[0].id
                            if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(v)):
                                out.append(s)
                                continue
                            self.hit()
                            out.append(ast.copy_location(ast.parse("%s = []" % t).body[0], s))
                            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))
                            out.append(ast.copy_location(ast.For(g.target, g.iter, [body], []), s))
                        else:
                            out.append(s)
                    setattr(node, name, out)
        return f


class Split(T):
    """nested operands get their own temporaries: y = f(a + b) -> t = a + b; y = f(t) (outermost call's first BinOp argument)"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = [0]
        for node in ast.walk(f):
            for name in ("body", "orelse"):
                b = getattr(node, name, None)
                if isinstance(b, list):
                    out = []
                    for s in b:
                        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                            for i, a in enumerate(s.value.args):
                                if isinstance(a, (ast.BinOp, ast.Call)) and all(is_simple(x) for x in s.value.args[:i]):
                                    k[0] += 1
                                    t = "split_%d" % k[0]
                                    out.append(ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], a), s))
                                    s.value.args[i] = ast.Name(t, ast.Load())
                                    self.hit()
                                    break
                        out.append(s)
                    setattr(node, name, out)
        return f


class Helper(T):
    """the trailing half of a method's straight-line body becomes a new method called with the live locals"""
    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and f.args.args[0].arg == "self" \
                    and not f.name.startswith("__") and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for s in f.body for x in ast.walk(s)):
                b = f.body
                k = len(b) // 2
                if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    k = max(k, 1) + (1 if len(b) > 3 else 0)
                head, tail = b[:k], b[k:]
                if len(tail) < 2 or not head or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in tail for x in ast.walk(s)):
                    continue
                args = [a.arg for a in f.args.args[1:] + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a]
                stored = [x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                definite = [x.id for s in head if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) for x in ast.walk(s)
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
                live = [v for v in dict.fromkeys(args + stored) if v in used]
                if any(v not in definite and v not in args for v in live):
                    continue
                name = "_rest_of_%s_%s" % (c.name, f.name)
                g = ast.parse("def %s(self%s):\n    pass" % (name, "".join(", " + v for v in live))).body[0]
                g.body = tail
                f.body = head + [ast.parse("return self.%s(%s)" % (name, ", ".join(live))).body[0]]
                new.append(g)
                self.hit()
        c.body += new
        return c


class Func(T):
    """the trailing half of a module-level function becomes a helper function"""
    def visit_Module(self, m):
        out = []
        for f in m.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) for s in f.body for x in ast.walk(s)):
                b = f.body
                k = len(b) // 2
                if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    k = max(k, 1) + (1 if len(b) > 3 else 0)
                head, tail = b[:k], b[k:]
                if len(tail) < 2 or not head:
                    continue
                args = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a]
                stored = [x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                definite = [x.id for s in head if isinstance(s, (ast.Assign, ast.AugAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
                live = [v for v in dict.fromkeys(args + stored) if v in used]
                if any(v not in definite and v not in args for v in live):
                    continue
                name = "_rest_of_" + f.name
                g = ast.parse("def %s(%s):\n    pass" % (name, ", ".join(live))).body[0]
                g.body = tail
                f.body = head + [ast.parse("return %s(%s)" % (name, ", ".join(live))).body[0]]
                out.append(g)
                self.hit()
        m.body = out
        return m


class Else(T):
    """if c: ...return/raise; rest  ->  if c: ... else: rest"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for k, s in enumerate(f.body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and f.body[k + 1:]:
                s.orelse = f.body[k + 1:]
                f.body = f.body[:k + 1]
                self.hit()
                break
        return f


class Kw(T):
    """torch.stack(x, dim=0) default made explicit, dim passed by keyword: x.mean(-1) -> x.mean(dim=-1), sum likewise"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("mean", "sum", "argmax", "amax", "cumsum", "softmax") and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.UnaryOp, ast.Constant)) and not any(k.arg in ("dim", "axis") for k in n.keywords):
            n.keywords.insert(0, ast.keyword("dim", n.args[0]))
            n.args = []
            self.hit()
        return n


RULES = {c.__name__.lower(): c for c in (Commute, Temp, Rename, Invert, Compare, Aug, Size, Method, Power, Minus, Div, Comp, Split,
                                        Helper, Func, Else, Kw)}


def apply(rule, out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree("/repo/ml4gw", out + "/ml4gw", ignore=shutil.ignore_patterns("__pycache__"))
    total = 0
    for d, _, fs in os.walk(out + "/ml4gw"):
        for f in fs:
            if f.endswith(".py") and f != "phenom_d_data.py":
                p = os.path.join(d, f)
                t = RULES[rule]()
                m = t.visit(ast.parse(open(p).read()))
                total += t.n
                open(p, "w").write(ast.unparse(ast.fix_missing_locations(m)) + "\n")
    return total


if __name__ == "__main__":
    print(sys.argv[2], apply(sys.argv[2], sys.argv[1]))
