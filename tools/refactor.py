"""Development tool: random behaviour-preserving rewritings of the package; every check has to stay quiet.
usage: refactor.py SEED OUTDIR [--p=0.15] [--only=t1,t2] [file ...]     writes OUTDIR/agnpy (a rewritten copy)"""
import ast, copy, os, random, shutil, sys

NP_POW = ast.parse("np.power", mode="eval").body


def is_np(n, name):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and n.func.attr == name and not n.keywords


def np_call(name, *args):
    return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), name, ast.Load()), list(args), [])


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def pure(n):
    return not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Starred)) for x in ast.walk(n))


def numeric(n):
    return not any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.Dict)) or isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes, bool)) for x in ast.walk(n) if not isinstance(x, ast.Call))


class Expr(ast.NodeTransformer):
    def __init__(self, rng, p, only, log):
        self.rng, self.p, self.only, self.log, self.on = rng, p, only, log, False

    def go(self, t):
        if self.on and (not self.only or t in self.only) and self.rng.random() < self.p:
            self.log.append(t)
            return True
        return False

    def visit_JoinedStr(self, n):
        return n

    def visit_Raise(self, n):
        return n

    def visit_FunctionDef(self, n):
        was, self.on = self.on, True
        n.body = [self.visit(s) if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) else s for i, s in enumerate(n.body)]
        self.on = was
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if is_np(n, "power") and len(n.args) == 2 and not isinstance(n.args[0], ast.Constant):
            if self.go("pow"):
                return ast.BinOp(n.args[0], ast.Pow(), n.args[1])
            if isinstance(n.args[1], ast.Constant) and n.args[1].value == 2 and isinstance(n.args[0], (ast.Name, ast.Attribute)) and self.go("sq"):
                return ast.BinOp(n.args[0], ast.Mult(), copy.deepcopy(n.args[0]))
            if isinstance(n.args[1], ast.Constant) and n.args[1].value == 2 and self.go("square"):
                return np_call("square", n.args[0])
        if is_np(n, "sqrt") and self.go("sqrt"):
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        if is_np(n, "where") and len(n.args) == 3 and self.go("where"):
            return np_call("where", np_call("logical_not", n.args[0]), n.args[2], n.args[1])
        if is_np(n, "log10") and False:
            return n
        if isinstance(n.func, ast.Attribute) and n.func.attr == "to_value" and len(n.args) == 1 and not n.keywords and self.go("to_value"):
            return ast.Attribute(ast.Call(ast.Attribute(n.func.value, "to", ast.Load()), n.args, []), "value", ast.Load())
        if isinstance(n.func, ast.Attribute) and n.func.attr == "to" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Constant) and self.go("unit"):
            return ast.Call(n.func, [ast.Call(ast.Attribute(ast.Name("u", ast.Load()), "Unit", ast.Load()), n.args, [])], []) if self.has_u else n
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and numeric(n.left) and numeric(n.right):
            if self.go("swap"):
                return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Add) and numeric(n.left) and numeric(n.right) and self.go("swapadd"):
            return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Div) and numeric(n.left) and numeric(n.right) and not isinstance(n.right, ast.Constant) and self.go("recip"):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(n.right, ast.Pow(), ast.UnaryOp(ast.USub(), ast.Constant(1.0))))
        if isinstance(n.op, ast.Pow) and not isinstance(n.left, ast.Constant) and self.go("topow") and self.has_np:
            return np_call("power", n.left, n.right)
        if isinstance(n.op, ast.Sub) and numeric(n.left) and numeric(n.right) and self.go("negadd"):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in inv and self.go("flip"):
            return ast.Compare(n.comparators[0], [inv[type(n.ops[0])]()], [n.left])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.go("ifexp"):
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.go("ifelse"):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        if not n.orelse and n.body and isinstance(n.body[-1], (ast.Return, ast.Raise)) and False:
            pass
        return n


class Stmts:
    """rewritings of the statement lists of a function"""

    def __init__(self, rng, p, only, log, module):
        self.rng, self.p, self.only, self.log, self.module, self.k = rng, p, only, log, module, 0
        self.helpers = []

    go = Expr.go
    on = True

    def fresh(self, s):
        self.k += 1
        return f"_{s}_{self.k}"

    def fn(self, f, cls):
        self.locals = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | names(f, ast.Store) | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        for x in ast.walk(f):
            if isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                self.locals |= {(a.asname or a.name).split(".")[0] for a in x.names}
            if isinstance(x, ast.FunctionDef) and x is not f:
                self.locals.add(x.name)
        self.super = any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(f))
        self.globals = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        f.body = self.block(f.body)
        if not self.globals and not any(isinstance(x, ast.FunctionDef) and x is not f or isinstance(x, ast.ClassDef) for x in ast.walk(f)):
            self.rename(f)

    def rename(self, f):
        args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        if f.args.vararg: args.add(f.args.vararg.arg)
        if f.args.kwarg: args.add(f.args.kwarg.arg)
        lam = {a.arg for x in ast.walk(f) if isinstance(x, ast.Lambda) for a in x.args.args}
        ok = sorted(names(f, ast.Store) - args - lam)
        m = {n: n + "_r" for n in ok if self.go("rename")}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]

    def block(self, body):
        out = []
        for i, s in enumerate(body):
            for fld in ("body", "orelse", "finalbody"):
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and getattr(s, fld, None):
                    setattr(s, fld, self.block(getattr(s, fld)))
            out += self.stmt(s, i)
        # swap independent assignments
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if self.simple(a) and self.simple(b) and not (names(a, ast.Store) & names(b)) and not (names(b, ast.Store) & names(a)) and self.go("reorder"):
                out[i], out[i + 1] = b, a
                i += 1
            i += 1
        # if with return, rest into else
        for i, s in enumerate(out):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(out) and self.go("elserest"):
                s.orelse = out[i + 1:]
                out = out[:i + 1]
                break
        return out

    def simple(self, s):
        return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and pure(s.value)

    def hoistable(self, s):
        """subexpressions evaluated unconditionally and before nothing else with effects"""
        res = []

        def walk(n, ok):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp, ast.JoinedStr)):
                return
            if ok and isinstance(n, (ast.BinOp, ast.Call)) and pure(n):
                res.append(n)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.expr, ast.keyword)):
                    walk(c, True)
        v = s.value
        if v is not None:
            walk(v, True)
        return res

    def stmt(self, s, i):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
            pre = []
            if isinstance(s, ast.Return) and not isinstance(s.value, (ast.Name, ast.Constant)) and self.go("retvar"):
                t = self.fresh("res")
                pre.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                s = ast.Return(ast.Name(t, ast.Load()))
                self.locals.add(t)
                return self.stmt(pre[0], i) + [s]
            # comprehension to loop
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in names(s.value) and self.go("loop"):
                g = s.value.generators[0]
                m = {}
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        m[x.id] = self.fresh(x.id)
                lc = copy.deepcopy(s.value)
                it = lc.generators[0].iter
                for part in [lc.elt, lc.generators[0].target] + lc.generators[0].ifs:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].id, ast.Load()), "append", ast.Load()), [lc.elt], []))]
                for c in reversed(lc.generators[0].ifs):
                    body = [ast.If(c, body, [])]
                self.locals |= set(m.values())
                return [ast.Assign(s.targets, ast.List([], ast.Load())), ast.For(lc.generators[0].target, it, body, [])]
            h = [x for x in self.hoistable(s) if x is not s.value]
            if h and self.go("hoist"):
                x = self.rng.choice(h)
                t = self.fresh("t")
                self.locals.add(t)
                pre.append(ast.Assign([ast.Name(t, ast.Store())], copy.deepcopy(x)))
                s = replace(s, x, ast.Name(t, ast.Load()))
            h = [x for x in self.hoistable(s) if isinstance(x, ast.BinOp) or x is s.value]
            if h and not self.globals and self.go("extract"):
                x = self.rng.choice(h)
                used = sorted(n for n in names(x, ast.Load) if n in self.locals)
                if not any(isinstance(y, ast.Name) and y.id in ("super", "__class__", "locals") for y in ast.walk(x)) and not any(isinstance(y, ast.Attribute) and y.attr.startswith("__") and not y.attr.endswith("__") for y in ast.walk(x)):
                    t = self.fresh("helper")
                    self.helpers.append(ast.FunctionDef(t, ast.arguments([], [ast.arg(a) for a in used], None, [], [], None, []), [ast.Return(copy.deepcopy(x))], [], None, None, []))
                    s = replace(s, x, ast.Call(ast.Name(t, ast.Load()), [ast.Name(a, ast.Load()) for a in used], []))
            # tuple unpacking
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and getattr(s.value.func, "attr", "") != "copy" and self.go("unpack"):
                t = self.fresh("tup")
                self.locals.add(t)
                return pre + [ast.Assign([ast.Name(t, ast.Store())], s.value)] + [ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(j), ast.Load())) for j, e in enumerate(s.targets[0].elts)]
            return pre + [s]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and self.go("aug") and False:
            pass
        return [s]


def replace(tree, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            return new if n is old else super().visit(n)
    return R().visit(tree)


def rewrite(src, rng, p, only, log):
    tree = ast.parse(src)
    e = Expr(rng, p, only, log)
    top = names(tree)
    e.has_np = "import numpy as np" in src
    e.has_u = "import astropy.units as u" in src or "from astropy import units as u" in src
    st = Stmts(rng, p, only, log, tree)
    body = tree.body

    def funcs(b, cls=None):
        for n in b:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith("plot") and n.name not in ("__str__",):
                yield n, cls
            elif isinstance(n, ast.ClassDef):
                yield from funcs(n.body, n)
    for f, cls in list(funcs(body)):
        # `u` or `np` shadowed inside
        e.has_u = e.has_u and "u" not in {a.arg for a in f.args.args}
        doc = []
        if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            doc, f.body = f.body[:1], f.body[1:]
        if f.body:
            f2 = e.visit_FunctionDef(f)
            st.fn(f, cls)
        f.body = doc + f.body
    # helpers at the end of the module
    tree.body = body + st.helpers
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    ast.parse(out)
    return out


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
    rng, out, files = random.Random(int(args[0])), args[1], args[2:]
    p, only = float(opt.get("p", 0.15)), set(filter(None, opt.get("only", "").split(",")))
    os.makedirs(out, exist_ok=True)
    shutil.rmtree(out + "/agnpy", ignore_errors=True)
    shutil.copytree("/repo/agnpy", out + "/agnpy", ignore=shutil.ignore_patterns("__pycache__"))
    total = {}
    for d, _, fs in sorted(os.walk(out + "/agnpy")):
        if "tests" in d or "data" in d.split("/")[-1:]:
            continue
        for f in sorted(fs):
            q = os.path.join(d, f)
            if f.endswith(".py") and (not files or q[len(out) + 7:] in files):
                log = []
                src = open(q).read()
                new = rewrite(src, rng, p, only, log)
                open(q, "w").write(new)
                for t in log:
                    total[t] = total.get(t, 0) + 1
    print(total)
