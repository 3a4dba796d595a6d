"""Abstract interpreter: python source -> value graph (gated, joined at merges).

The analysed modules are parsed with :mod:`ast`; they are never imported.
Branches on values that are not known statically are both analysed and their
states joined with gated phi nodes; definite branches are resolved."""
import ast
import os
import builtins as _bi
import astropy.units as u
from . import algebra as al
from .algebra import E, ONE, ZERO, lift, mul2, sub, const
from .values import *


class State:
    __slots__ = ("heap", "over", "pc", "assume")

    def __init__(self):
        self.heap, self.over, self.pc, self.assume = {}, {}, (), {}

    def fork(self):
        s = State()
        s.heap, s.over, s.pc, s.assume = dict(self.heap), dict(self.over), self.pc, dict(self.assume)
        return s


class Comp:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def is_generator(fnode):
    for n in ast.walk(fnode):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Interp:
    def __init__(self, root, package="agnpy", stubs=None, generic=True, max_depth=120):
        from . import models
        self.models = models
        self.root = root
        self.package = package
        self.stubs = stubs or {}
        self.modules = {}
        self.st = State()
        self.events = []
        self.raises = []
        self.depth = 0
        self.max_depth = max_depth
        self.opaque_shifts = False
        self.generic = generic  # drop the branches guarded by rounding tolerances
        self.pathcache = {}
        self.called = {}
        self.stmts = set()
        self.files = set()
        self.hooks = {}
        self.decide = None  # assumption on single conditions: atom -> True, False or None
        self.loops = None   # number of iterations to assume for the loops of unknown length
        self.intrinsics = {}
        self.src = None
        self.unrolled = 0
        models.install(self)

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        if name in self.stubs:
            return self.stubs[name]
        parts = name.split(".")
        if parts[0] != self.package:
            return None
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.exists(q) else None
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find_module(name)
        if path is None:
            return Ext(name)
        if name not in self.stubs and "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        m = ModuleV(name, path)
        self.modules[name] = m
        self.files.add(path)
        src = open(path).read()
        tree = ast.parse(src, path)
        st = self.st
        st.heap[m.loc] = {"__name__": name, "__file__": path}
        m.ispkg = os.path.basename(path) == "__init__.py"
        saved = (st.pc, st.assume, self.src)
        st.pc, st.assume = (), {}
        self.exec_module(tree, m)
        self.st.pc, self.st.assume, self.src = saved
        m.done = True
        if "." in name and name not in self.stubs:
            pn, leaf = name.rsplit(".", 1)
            pm = self.modules.get(pn)
            if isinstance(pm, ModuleV):
                d = dict(self.st.heap[pm.loc])
                d.setdefault(leaf, m)
                self.st.heap[pm.loc] = d
        return m

    def exec_module(self, tree, m):
        env = Env(self, m, None, [], m.name)
        env.loc = m.loc
        env.is_module = True
        comps = self.exec_block(tree.body, env)
        if comps is not None:
            ns = [c for c in comps if c.kind == "n"]
            self.st = ns[0].st

    def load_source(self, name, text, path):
        """parse a specification written in python (interpreted, not run)"""
        m = ModuleV(name, path)
        m.ispkg = False
        self.modules[name] = m
        self.st.heap[m.loc] = {"__name__": name, "__file__": path}
        self.exec_module(ast.parse(text, path), m)
        m.done = True
        return m

    def rel(self, path):
        return os.path.relpath(path, self.root) if path.startswith(self.root) else path

    # -------------------------------------------------------------- state
    def hget(self, loc):
        return self.st.heap[loc]

    def hset(self, loc, key, val):
        d = dict(self.st.heap[loc])
        d[key] = val
        self.st.heap[loc] = d

    def event(self, kind, **kw):
        self.events.append(dict(kind=kind, src=self.src, pc=self.st.pc, **kw))

    # ------------------------------------------------------------- joining
    def guard(self, st, base):
        g = ONE
        for c in st.pc[len(base):]:
            g = mul2(g, c)
        return al.canon(g)

    def join_states(self, sts, base):
        """join states with mutually exclusive guards"""
        if len(sts) == 1:
            return sts[0]
        acc = sts[-1]
        accg = self.guard(acc, base)
        for s in reversed(sts[:-1]):
            g = self.guard(s, base)
            acc = self.join2(g, s, acc, base)
            accg = al.canon(al.add(accg, g))
        acc.pc = base if accg == ONE else base + (accg,)
        return acc

    def join2(self, c, a, b, base):
        out = State()
        out.pc = base
        out.assume = {k: v for k, v in a.assume.items() if b.assume.get(k) == v}
        keys = set(a.heap) | set(b.heap)
        save = self.st
        self.st = out
        heap = out.heap
        for k in keys:
            pa, pb = a.heap.get(k), b.heap.get(k)
            if pa is pb or pb is None:
                heap[k] = pa
            elif pa is None:
                heap[k] = pb
            else:
                heap[k] = self.join_payload(c, pa, pb, a, b)
        for k in set(a.over) | set(b.over):
            va, vb = a.over.get(k), b.over.get(k)
            if va is None or vb is None:
                v = va if va is not None else vb
                base_v = v[2]
                na = va[0] if va is not None else base_v
                nb = vb[0] if vb is not None else base_v
                out.over[k] = (self.gate(c, na, nb), v[1], base_v)
            elif va == vb:
                out.over[k] = va
            else:
                out.over[k] = (self.gate(c, va[0], vb[0]), va[1], va[2])
        self.st = save
        return out

    def join_payload(self, c, pa, pb, sa, sb):
        if isinstance(pa, dict):
            out = {}
            for k in list(pa) + [x for x in pb if x not in pa]:
                if k in pa and k in pb:
                    out[k] = self.phi(c, pa[k], pb[k], sa, sb)
                else:
                    v = pa[k] if k in pa else pb[k]
                    out[k] = PhiVal(c, v, UNDEF) if k in pa else PhiVal(c, UNDEF, v)
            return out
        if isinstance(pa, list):
            if isinstance(pb, list) and len(pa) == len(pb):
                return [self.phi(c, x, y, sa, sb) for x, y in zip(pa, pb)]
            return ListPhi(c, pa, pb)
        if isinstance(pa, ListPhi) or isinstance(pb, ListPhi):
            return ListPhi(c, pa, pb)
        if pa == pb:
            return pa
        raise Unsupported(f"join of {type(pa).__name__}")

    def gate(self, c, a, b):
        r = al.where(c, a, b)
        if self.opaque_shifts and a.c and b.c and (al.deps(a) or al.deps(b)) and \
                any(al.ATOMS[i].args[0] in ("red_any", "red_all") for i in al.ind_atoms(c)):
            return al.opaque(r)
        return r

    def phi(self, c, a, b, sa=None, sb=None):
        if a is b:
            return a
        if c == ONE:
            return a
        if c == ZERO:
            return b
        if isinstance(a, Num) and sa is not None:
            a = self.cur(a, sa)
        if isinstance(b, Num) and sb is not None:
            b = self.cur(b, sb)
        if isnum(a) and isnum(b) and not (isinstance(a, bool) != isinstance(b, bool)):
            if not isinstance(a, Num) and not isinstance(b, Num) and a == b and type(a) == type(b):
                return a
            x, y = scalar(a), scalar(b)
            if isinstance(a, Num) and isinstance(b, Num) and a.alias == b.alias and a.alias \
                    and a.dims == b.dims and a.k == b.k and a.unit == b.unit:
                return a.replace(node=self.gate(c, a.node, b.node))
            try:
                dims = self.models.broadcast(x.dims, y.dims)
            except AbsRaise:
                return PhiVal(c, a, b)
            if (x.unit is None) != (y.unit is None):
                return PhiVal(c, a, b)
            if x.unit is not None and not x.unit.is_equivalent(y.unit):
                return PhiVal(c, a, b)
            if x.dims != y.dims:
                return PhiVal(c, a, b)
            r = Num(self.gate(c, x.node, y.node), x.unit, dims, "f" if "f" in (x.dt, y.dt) else x.dt,
                    arr=x.arr or y.arr, alias=x.alias | y.alias,
                    flags=x.flags if x.flags == y.flags else ())
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(c, x, y, sa, sb) for x, y in zip(a, b))
        if type(a) == type(b) and not isinstance(a, (Obj, ListV, DictV, PhiVal)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        return PhiVal(c, a, b)

    def simplify_phi(self, v):
        """resolve a phi under the current assumptions"""
        while isinstance(v, PhiVal):
            t = self.known(v.c)
            if t is None:
                return v
            v = v.a if t else v.b
        return v

    def known(self, c):
        """True/False when the indicator polynomial c is decided by the assumptions"""
        r = const(c)
        if r is not None:
            return bool(r)
        x = c
        for i in al.ind_atoms(c):
            if i in self.st.assume:
                x = al.set_ind(x, i, self.st.assume[i])
            elif self.decide is not None:
                d = self.decide(al.ATOMS[i])
                if d is not None:
                    x = al.set_ind(x, i, d)
        if x is not c:
            x = al.canon(x)
            r = const(x)
            if r is not None:
                return bool(r)
        if al.is_zero(x):
            return False
        return None

    def assume(self, c, val):
        """record c == val in the current state"""
        st = self.st
        st.pc = st.pc + ((c if val else al.not_(c)),)
        x = al.canon(c if val else al.not_(c))
        # a single indicator or a product of indicators known to be one
        if x.c == 1 and all(al.ATOMS[i].kind == "ind" for i, _ in x.m):
            for i, _ in x.m:
                st.assume[i] = True
            return
        y = al.canon(al.not_(x))
        if y.c == 1 and len(y.m) == 1 and al.ATOMS[y.m[0][0]].kind == "ind":
            st.assume[y.m[0][0]] = False
            return
        # product of indicators and negations: c = a*(1-b)...
        for i in al.ind_atoms(x):
            if const(al.canon(al.set_ind(x, i, False))) == 0:
                st.assume[i] = True
            elif const(al.canon(al.set_ind(x, i, True))) == 0:
                st.assume[i] = False

    # --------------------------------------------------------- numbers
    def cur(self, v, st=None):
        """current content of the buffer behind v"""
        if not v.alias or len(v.alias) != 1:
            return v
        (loc,) = v.alias
        o = (st or self.st).over.get(loc)
        if o is None:
            return v
        n = mul2(o[0], v.k)
        un = v.unit
        if o[1] is not None and v.unit is not None:
            un = o[1]
        if n == v.node and un == v.unit:
            return v
        return v.replace(node=n, unit=un)

    def write(self, v, new, how):
        """in-place write of the Num new into v, returns the updated v"""
        if v.alias:
            self.event("write", alias=v.alias, how=how, old=v.node, new=new.node)
        if v.dt == "i" and new.dt == "f":
            self.event("truncate", how=how)
            new = new.replace(node=al.fn("trunc", new.node))
        if v.viewof is not None:
            parent, index = v.viewof
            self.models.setitem(self, self.cur(parent), index, new, how="view")
        if len(v.alias) == 1:
            (loc,) = v.alias
            old = self.st.over.get(loc)
            base = old[2] if old is not None else al.mul2(v.node, al.ipow(v.k, -1))
            self.st.over[loc] = (mul2(new.node, al.ipow(v.k, -1)), new.unit if v.unit is not None else None, base)
            return v.replace(node=new.node, unit=new.unit if v.unit is not None else None)
        return v.replace(node=new.node, unit=new.unit, alias=frozenset([newloc()]))

    # ------------------------------------------------------------ execute
    def at(self, node, env):
        self.src = (self.rel(env.module.path), getattr(node, "lineno", 0), env.qual)
        al.CURRENT_SRC[0] = self.src

    def exec_block(self, stmts, env):
        for n, s in enumerate(stmts):
            comps = self.exec_stmt(s, env)
            if comps is None:
                continue
            normals = [c for c in comps if c.kind == "n"]
            others = [c for c in comps if c.kind != "n"]
            if not normals:
                return others
            self.st = normals[0].st
            if not others:
                continue
            try:
                rest = self.exec_block(stmts[n + 1:], env)
            except AbsRaise as x:
                self.raises.append((self.st.pc, x.exc, self.st, x.src))
                return others
            return others + (rest if rest is not None else [Comp("n", self.st)])
        return None

    def exec_stmt(self, s, env):
        self.at(s, env)
        self.stmts.add((env.module.path, s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}", self.src)
        return m(s, env)

    def s_Pass(self, s, env):
        return None

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                top = a.name.split(".")[0]
                env.set(top, self.import_module(top))

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pkg = env.module.name.split(".")
            if not env.module.ispkg:
                pkg = pkg[:-1]
            if s.level > 1:
                pkg = pkg[: -(s.level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    d = self.hget(m.loc)
                    al_ = d.get("__all__")
                    names = [x for x in self.iterate(al_)] if al_ is not None else [k for k in d if not k.startswith("_")]
                    for k in names:
                        if k in d:
                            env.set(k, d[k])
                continue
            env.set(a.asname or a.name, self.import_name(m, a.name))

    def import_name(self, m, name):
        if isinstance(m, Ext):
            v = self.models.ext_attr(self, m, name)
            return v
        d = self.hget(m.loc)
        if name in d:
            return d[name]
        if self.find_module(m.name + "." + name):
            return self.import_module(m.name + "." + name)
        if not m.done:
            raise Unsupported(f"circular import of {name} from {m.name}")
        raise AbsRaise(ExcV("ImportError", f"cannot import {name} from {m.name}"))

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.ev_decorator(d, env), f, env)
        env.set(s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def ev_decorator(self, d, env):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            return ("prop", d.attr, self.ev(d.value, env))
        return self.ev(d, env)

    def decorate(self, d, f, env):
        if isinstance(d, tuple) and d and d[0] == "prop":
            p = d[2]
            if d[1] == "setter":
                return PropV(p.fget, f)
            if d[1] == "getter":
                return PropV(f, p.fset)
            return p
        return self.call(d, [f], {})

    def make_func(self, s, env):
        a = s.args
        defaults = [self.ev(x, env) for x in a.defaults]
        kwd = {k.arg: self.ev(v, env) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        clos = ([env.loc] + env.closure) if not env.is_module and not env.is_class else list(env.closure)
        name = getattr(s, "name", "<lambda>")
        f = FuncV(name, s, env.module, clos, defaults, kwd)
        f.outer = env.qual
        f.defcls = env.defcls
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.name in ("abc.ABC", "builtins.object", "typing.Generic", "typing.Protocol"))]
        c = ClassV(s.name, bases, {}, env.module, s)
        cenv = Env(self, env.module, None, ([env.loc] + env.closure) if not env.is_module and not env.is_class else list(env.closure),
                   (env.qual + "." + s.name) if env.qual else s.name)
        cenv.is_class = True
        cenv.defcls = c
        self.st.heap[cenv.loc] = {}
        comps = self.exec_block(s.body, cenv)
        if comps is not None:
            raise Unsupported("control flow in class body")
        ns = dict(self.hget(cenv.loc))
        c.ns = ns
        for v in ns.values():
            for f in (v, getattr(v, "f", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(f, FuncV) and f.owner is None:
                    f.owner = c
        c.annots = [n.target.id for n in s.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases):
            c.kind = "namedtuple"
        for k in c.mro()[1:]:
            if k.kind:
                c.kind = c.kind or k.kind
                if not c.annots:
                    c.annots = k.annots
        r = c
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if isinstance(dv, Ext) and dv.name.startswith("dataclasses.dataclass") or isinstance(dv, ExtObj) and dv.kind == "dataclass":
                c.kind = "dataclass"
                fields = []
                for k in reversed(c.mro()):
                    for x in getattr(k, "annots", []):
                        if x not in fields:
                            fields.append(x)
                c.fields = fields
            else:
                r = self.call(dv, [r], {})
        env.set(s.name, r)

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else None
        return [Comp("r", self.st, v)]

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            cur = self.load_name(s.target.id, env)
            r = self.augop(s.op, cur, self.ev(s.value, env))
            self.assign(s.target, r, env)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            r = self.augop(s.op, cur, self.ev(s.value, env))
            self.setattr(o, s.target.attr, r)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            k = self.ev_index(s.target.slice, env)
            cur = self.models.getitem(self, o, k)
            v = self.ev(s.value, env)
            if isinstance(cur, Num):
                r = self.binop(s.op, cur, v)
            else:
                r = self.augop(s.op, cur, v)
            self.models.setitem(self, o, k, r)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, v):
        if isinstance(cur, Num) and cur.arr and (cur.dims or cur.unit is not None):
            if isinstance(v, u.UnitBase) and cur.unit is None:
                return self.binop(op, cur, v)
            r = self.binop(op, cur, v)
            if not isinstance(r, Num):
                return r
            if cur.unit is None and r.unit is not None:
                if not r.unit.is_equivalent(u.dimensionless_unscaled):
                    raise AbsRaise(ExcV("TypeError", "in-place operation would give a unit to a plain array"))
                r = self.models.to_plain(r)
            if r.dims != cur.dims:
                raise AbsRaise(ExcV("ValueError", "non-broadcastable output operand"))
            if cur.dt == "i" and r.dt == "f":
                raise AbsRaise(ExcV("TypeError", "cannot cast ufunc output from float to int"))
            return self.write(cur, r, "augmented assignment")
        if isinstance(cur, ListV) and isinstance(op, ast.Add):
            self.models.list_extend(self, cur, v)
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        if c is True:
            return self.exec_block(s.body, env)
        if c is False:
            return self.exec_block(s.orelse, env)
        base = self.st.pc
        st0 = self.st
        outs = []
        failed = []
        for val, body in ((True, s.body), (False, s.orelse)):
            self.st = st0.fork()
            self.assume(c, val)
            try:
                comps = self.exec_block(body, env)
            except AbsRaise as x:
                failed.append((self.st.pc, x.exc, self.st, x.src))
                outs.append([])
                continue
            outs.append([Comp("n", self.st)] if comps is None else comps)
        if len(failed) == 2:
            self.st = failed[0][2]
            self.raises.append(failed[0])
            x = AbsRaise(failed[1][1])
            x.src = failed[1][3]
            raise x
        self.raises.extend(failed)
        return self.merge(outs[0] + outs[1], base, st0)

    def merge(self, comps, base, st0):
        """join the completions of the same kind (returns are kept apart)"""
        res = []
        for kind in ("n", "b", "c"):
            cs = [x for x in comps if x.kind == kind]
            if cs:
                st = self.join_states([x.st for x in cs], base)
                st.assume = dict(st.assume)
                res.append(Comp(kind, st))
        res += [x for x in comps if x.kind == "r"]
        if len(res) == 1 and res[0].kind == "n":
            self.st = res[0].st
            return None
        return res

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, PhiVal):
            it = self.simplify_phi(it)
        dim = self.models.symbolic_iter(self, it)
        if dim is not None:
            return self.models.symbolic_for(self, s, it, dim, env)
        items = list(self.iterate(it))
        base = self.st.pc
        exits, rets = [], []
        alive = True
        for x in items:
            self.unrolled += 1
            if self.unrolled > 200000:
                raise Unsupported("loop too long")
            self.assign(s.target, x, env)
            try:
                comps = self.exec_block(s.body, env)
            except AbsRaise as ex:
                if not (exits or rets):
                    raise
                self.raises.append((self.st.pc, ex.exc, self.st, ex.src))
                alive = False
                break
            if comps is None:
                continue
            go = [c.st for c in comps if c.kind in "nc"]
            exits += [c for c in comps if c.kind == "b"]
            rets += [c for c in comps if c.kind == "r"]
            if not go:
                alive = False
                break
            b = go[0].pc[:len(base)]
            self.st = self.join_states(go, base) if len(go) > 1 else go[0]
        outs = []
        if alive:
            if s.orelse:
                c = self.exec_block(s.orelse, env)
                outs += [Comp("n", self.st)] if c is None else c
            else:
                outs.append(Comp("n", self.st))
        outs += [Comp("n", c.st) for c in exits]
        if not rets and len(outs) == 1 and outs[0].kind == "n":
            self.st = outs[0].st
            return None
        return self.merge(outs + rets, base, None)

    def s_While(self, s, env):
        base = self.st.pc
        exits, rets = [], []
        n = done = 0
        while True:
            c = self.truth(self.ev(s.test, env))
            if c is False:
                exits.append(Comp("n", self.st))
                break
            if c is not True:
                if self.loops is None:
                    raise Unsupported("loop on a condition that is not known statically", self.src)
                if done == self.loops:
                    self.assume(c, False)
                    exits.append(Comp("n", self.st))
                    break
                self.assume(c, True)
                done += 1
            n += 1
            if n > 5000:
                raise Unsupported("while loop does not terminate statically")
            comps = self.exec_block(s.body, env)
            if comps is None:
                continue
            go = [x.st for x in comps if x.kind in "nc"]
            out = [Comp("n", x.st) for x in comps if x.kind == "b"]
            rets += [x for x in comps if x.kind == "r"]
            if out and go and c is True and self.loops is not None:
                # loop left by a break: exactly that number of iterations
                done += 1
                if done == self.loops:
                    exits += out
                    break
                out = []
            exits += out
            if not go:
                break
            self.st = self.join_states(go, base) if len(go) > 1 else go[0]
        if not rets and len(exits) == 1:
            self.st = exits[0].st
            return None
        return self.merge(exits + rets, base, None)

    def s_Break(self, s, env):
        return [Comp("b", self.st)]

    def s_Continue(self, s, env):
        return [Comp("c", self.st)]

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = env.handling[-1] if env.handling else ExcV("RuntimeError", "re-raise")
            raise AbsRaise(cur)
        v = self.ev(s.exc, env)
        if isinstance(v, (Ext, ClassV)):
            v = self.call(v, [], {})
        if isinstance(v, Obj):
            e = ExcV(v.cls)
            e.obj = v
            v = e
        if not isinstance(v, ExcV):
            v = ExcV("Exception", str(v))
        v.src = self.src
        raise AbsRaise(v)

    def exc_matches(self, exc, h, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        for t in ts:
            if isinstance(t, ClassV):
                if isinstance(exc.cls, ClassV) and exc.cls.issub(t):
                    return True
            elif isinstance(t, Ext):
                nm = t.name.split(".")[-1]
                if isinstance(exc.cls, ClassV):
                    if any(b.split(".")[-1] == nm or self.models.exc_sub(b.split(".")[-1], nm) for b in exc.cls.ext_bases()):
                        return True
                elif self.models.exc_sub(exc.name, nm):
                    return True
        return False

    def s_Try(self, s, env):
        base = self.st.pc
        saved = self.raises
        self.raises = []
        outs = []
        st0 = self.st
        try:
            comps = self.exec_block(s.body, env)
            if comps is None:
                if s.orelse:
                    comps = self.exec_block(s.orelse, env)
                outs = [Comp("n", self.st)] if comps is None else comps
            else:
                outs = comps
        except AbsRaise as x:
            self.raises.append((self.st.pc, x.exc, self.st, x.src))
        caught = self.raises
        self.raises = saved
        for pc, exc, st, src in caught:
            for h in s.handlers:
                self.st = st
                if self.exc_matches(exc, h, env):
                    env.handling.append(exc)
                    if h.name:
                        env.set(h.name, exc)
                    try:
                        comps = self.exec_block(h.body, env)
                        outs += [Comp("n", self.st)] if comps is None else comps
                    except AbsRaise as x2:
                        self.raises.append((self.st.pc, x2.exc, self.st, x2.src))
                    env.handling.pop()
                    break
            else:
                self.raises.append((pc, exc, st, src))
        if s.finalbody:
            new = []
            for c in outs:
                self.st = c.st
                r = self.exec_block(s.finalbody, env)
                if r is None:
                    c.st = self.st
                    new.append(c)
                else:
                    new += r
            outs = new
        if not outs:
            last = self.raises.pop()
            self.st = last[2]
            x = AbsRaise(last[1])
            x.src = last[3]
            raise x
        return self.merge(outs, base, None)

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        return self.exec_block(s.body, env)

    def s_Assert(self, s, env):
        c = self.truth(self.ev(s.test, env))
        if c is False:
            raise AbsRaise(ExcV("AssertionError"))
        if c is not True:
            st = self.st.fork()
            self.raises.append((st.pc + (al.not_(c),), ExcV("AssertionError"), st, self.src))
            self.assume(c, True)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.delete(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                self.models.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                d = dict(self.hget(o.loc))
                d.pop(t.attr, None)
                self.st.heap[o.loc] = d

    def s_Global(self, s, env):
        for n in s.names:
            env.globals_.add(n)

    def s_Nonlocal(self, s, env):
        for n in s.names:
            env.nonlocals.add(n)

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.models.setitem(self, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, PhiVal):
                v = self.simplify_phi(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = list(self.iterate(v, n=len(t.elts)))
            if stars:
                i = stars[0]
                nr = len(t.elts) - i - 1
                head, mid, tail = items[:i], items[i:len(items) - nr], items[len(items) - nr:]
                for x, y in zip(t.elts[:i], head):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, self.new_list(mid), env)
                for x, y in zip(t.elts[i + 1:], tail):
                    self.assign(x, y, env)
                return
            if len(items) != len(t.elts):
                raise AbsRaise(ExcV("ValueError", "unpacking"))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, PhiVal):
            o = self.simplify_phi(o)
        if isinstance(o, Obj):
            p, k = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    raise AbsRaise(ExcV("AttributeError", f"property {name} of {o.cls.name} has no setter"))
                self.call_func(p.fset, [o, v], {})
                return
            sa, k = o.cls.lookup("__setattr__")
            if isinstance(sa, FuncV):
                self.call_func(sa, [o, name, v], {})
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, PhiVal):
            st0 = self.st
            base = st0.pc
            sts = []
            for val, x in ((True, o.a), (False, o.b)):
                self.st = st0.fork()
                self.assume(o.c, val)
                self.setattr(x, name, v)
                sts.append(self.st)
            self.st = self.join_states(sts, base)
            return
        if isinstance(o, ModuleV):
            self.event("global_write", module=o.name, name=name)
            self.hset(o.loc, name, v)
            return
        if isinstance(o, ClassV):
            self.event("class_write", cls=o.qual, name=name)
            o.ns = dict(o.ns)
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, (Ext, Opaque)):
            self.event("ext_write", obj=repr(o), name=name)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def raw_setattr(self, o, name, v):
        self.event("setattr", loc=o.loc, cls=o.cls.qual, name=name)
        self.hset(o.loc, name, v)

    # ---------------------------------------------------------- expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}", self.src)
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return scalar(v)
        if isinstance(v, complex):
            raise Unsupported("complex number")
        return v

    def e_Name(self, n, env):
        return self.load_name(n.id, env)

    def load_name(self, name, env):
        v = env.get(name)
        if v is UNDEF:
            raise AbsRaise(ExcV("UnboundLocalError", name))
        if isinstance(v, PhiVal):
            v = self.simplify_phi(v)
            if v is UNDEF:
                raise AbsRaise(ExcV("UnboundLocalError", name))
            if isinstance(v, PhiVal) and (v.a is UNDEF or v.b is UNDEF):
                # defined on some of the ways only
                self.event("maybe_undefined", name=name, cond=v.c)
                good = v.b if v.a is UNDEF else v.a
                st = self.st.fork()
                cond = v.c if v.b is UNDEF else al.not_(v.c)
                self.raises.append((st.pc + (al.not_(cond),), ExcV("UnboundLocalError", name), st, self.src))
                return good if not isinstance(good, Num) else self.cur(good)
        if isinstance(v, Num):
            v = self.cur(v)
        return v

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        self.at(n, env)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev_index(n.slice, env)
        self.at(n, env)
        return self.models.getitem(self, o, k)

    def ev_index(self, n, env):
        return self.ev(n, env)

    def e_Slice(self, n, env):
        return slice(*[self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def e_List(self, n, env):
        return self.new_list(self.ev_elts(n.elts, env))

    def e_Set(self, n, env):
        s = SetV()
        self.st.heap[s.loc] = list(self.ev_elts(n.elts, env))
        return s

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def new_list(self, items):
        v = ListV()
        self.st.heap[v.loc] = list(items)
        return v

    def new_dict(self, d):
        v = DictV()
        self.st.heap[v.loc] = dict(d)
        return v

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                d.update(self.hget(o.loc))
            else:
                d[self.models.dkey(self, self.ev(k, env))] = self.ev(v, env)
        return self.new_dict(d)

    def e_JoinedStr(self, n, env):
        parts = []
        ok = True
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.ev(x.value, env)
                if x.format_spec is not None:
                    self.ev(x.format_spec, env)
                if isinstance(v, (str, int, self.models.PathV)) and x.format_spec is None and x.conversion == -1:
                    parts.append(str(v))
                else:
                    ok = False
        return "".join(parts) if ok else Opaque("string")

    def e_FormattedValue(self, n, env):
        return self.ev(n.value, env)

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_IfExp(self, n, env):
        c = self.truth(self.ev(n.test, env))
        if c is True:
            return self.ev(n.body, env)
        if c is False:
            return self.ev(n.orelse, env)
        return self.cond_eval(c, lambda: self.ev(n.body, env), lambda: self.ev(n.orelse, env))

    def cond_eval(self, c, fa, fb):
        """evaluate fa when c, fb otherwise, and join"""
        st0, base = self.st, self.st.pc
        res = []
        failed = []
        for val, f in ((True, fa), (False, fb)):
            self.st = st0.fork()
            self.assume(c, val)
            try:
                v = f()
                res.append((self.st, v))
            except AbsRaise as x:
                failed.append((self.st.pc, x.exc, self.st, x.src))
                res.append(None)
        if len(failed) == 2:
            self.raises.append(failed[0])
            self.st = failed[1][2]
            x = AbsRaise(failed[1][1])
            x.src = failed[1][3]
            raise x
        self.raises.extend(failed)
        if res[0] is None or res[1] is None:
            st, v = res[0] or res[1]
            self.st = st
            return v
        (sa, a), (sb, b) = res
        self.st = self.join2(c, sa, sb, base)
        return self.phi(c, a, b, sa, sb)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.set(n.target.id, v)
        return v

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], env)
        for i, x in enumerate(n.values[1:]):
            c = self.truth(v)
            if c is True:
                if not isand:
                    return v
                v = self.ev(x, env)
            elif c is False:
                if isand:
                    return v
                v = self.ev(x, env)
            else:
                rest = n.values[1 + i:]
                def later():
                    sub_ = ast.BoolOp(n.op, rest) if len(rest) > 1 else rest[0]
                    if len(rest) > 1:
                        ast.copy_location(sub_, n)
                    w = self.ev(sub_, env)
                    return w
                cur = v
                if isand:
                    r = self.cond_eval(c, later, lambda: False)
                else:
                    r = self.cond_eval(c, lambda: True if self.models.isboolish(cur) else cur, later)
                return self.boolify(r)
        return v

    def boolify(self, r):
        if isinstance(r, PhiVal):
            t = self.truth(r)
            return t if isinstance(t, bool) else Num(t, None, (), "b")
        return r

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            return Num(al.canon(al.not_(c)), None, (), "b")
        return self.models.unary(self, n.op, v)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.at(n, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            self.at(n, env)
            v = self.models.compare(self, op, left, right)
            if res is None:
                res = v
            else:
                c = self.truth(res)
                if c is False:
                    return False
                if c is True:
                    res = v
                else:
                    res = self.models.binop(self, ast.BitAnd(), self.models.asbool(self, res), self.models.asbool(self, v))
            left = right
        return res

    def e_Call(self, n, env):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and env.lookup_local("super") is UNDEF:
            return SuperV(env.defcls, env.first_arg())
        f = self.ev(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, DictV):
                    kwargs.update(self.hget(d.loc))
                else:
                    raise Unsupported("** of " + repr(d))
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.at(n, env)
        src = self.src
        if isinstance(f, Ext) and f.name == "builtins.locals":
            return self.new_dict(self.hget(env.loc))
        r = self.call(f, args, kwargs)
        self.src = src
        al.CURRENT_SRC[0] = src
        return r

    # comprehension: fresh scope
    def e_ListComp(self, n, env):
        return self.comp(n, env, "list")

    def e_GeneratorExp(self, n, env):
        return self.comp(n, env, "list")

    def e_SetComp(self, n, env):
        l = self.comp(n, env, "list")
        s = SetV()
        self.st.heap[s.loc] = list(self.iterate(l))
        return s

    def e_DictComp(self, n, env):
        out = {}

        def emit(e2):
            out[self.models.dkey(self, self.ev(n.key, e2))] = self.ev(n.value, e2)

        self.comp_run(n.generators, 0, env.child(), emit)
        return self.new_dict(out)

    def comp(self, n, env, kind):
        out = []
        e2 = env.child()
        g = n.generators[0]
        if len(n.generators) == 1:
            it = self.ev(g.iter, env)
            if isinstance(it, PhiVal):
                it = self.simplify_phi(it)
            dim = self.models.symbolic_iter(self, it)
            if dim is not None:
                d2 = dim
                self.assign(g.target, self.models.symbolic_elem(self, it, dim), e2)
                conds = ONE
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2))
                    conds = mul2(conds, lift(t) if isinstance(t, bool) else t)
                v = self.ev(n.elt, e2)
                if conds != ONE:
                    d2 = ("mask", dim, al.canon(conds))
                return SymList(d2, v)
            self.comp_iter(it, n.generators, 0, e2, lambda e: out.append(self.ev(n.elt, e)))
        else:
            self.comp_run(n.generators, 0, e2, lambda e: out.append(self.ev(n.elt, e)))
        return self.new_list(out)

    def comp_run(self, gens, i, env, emit):
        if i == len(gens):
            emit(env)
            return
        self.comp_iter(self.ev(gens[i].iter, env), gens, i, env, emit)

    def comp_iter(self, it, gens, i, env, emit):
        g = gens[i]
        for x in self.iterate(it):
            self.assign(g.target, x, env)
            ok = True
            for c in g.ifs:
                t = self.truth(self.ev(c, env))
                if t is False:
                    ok = False
                    break
                if t is not True:
                    raise Unsupported("comprehension filter on an unknown condition")
            if ok:
                self.comp_run(gens, i + 1, env, emit)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        env.yields.append(v)
        return None

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        """True, False or an indicator expression"""
        if isinstance(v, PhiVal):
            t = self.known(v.c)
            if t is not None:
                return self.truth(v.a if t else v.b)
            a, b = self.truth(v.a), self.truth(v.b)
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            r = al.canon(al.where(v.c, lift(a), lift(b)))
            k = self.known(r)
            return r if k is None else k
        if isinstance(v, Num):
            return self.models.num_truth(self, v)
        if v is None or isinstance(v, (bool, int, str, tuple)):
            return bool(v)
        if isinstance(v, (ListV, DictV, SetV)):
            p = self.hget(v.loc)
            if isinstance(p, SymListP):
                return True
            if isinstance(p, ListPhi):
                raise Unsupported("truth of a list of unknown length")
            return bool(p)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(self.getattr(v, "__len__"), [], {}))
            return True
        if isinstance(v, Opaque):
            return al.ind("opaque_truth", v.what)
        return True

    # -------------------------------------------------------------- iterate
    def iterate(self, v, n=None):
        if isinstance(v, PhiVal):
            v = self.simplify_phi(v)
        if isinstance(v, tuple):
            return v
        if isinstance(v, (ListV, SetV)):
            p = self.hget(v.loc)
            if isinstance(p, list):
                return list(p)
            if isinstance(p, ListPhi):
                raise Unsupported("iteration on a list of unknown content")
        if isinstance(v, DictV):
            return list(self.hget(v.loc))
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return v
        if isinstance(v, list):
            return v
        if isinstance(v, Obj):
            if v.cls.kind == "namedtuple":
                d = self.hget(v.loc)
                return [d[k] for k in v.cls.annots]
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
        if isinstance(v, Num) and n is not None and v.dims:
            return [self.models.getitem(self, v, i) for i in range(n)]
        if isinstance(v, Num) and v.dims and v.dims[0] == 1:
            return [self.models.getitem(self, v, 0)]
        if isinstance(v, Num) and v.dims and isinstance(v.dims[0], tuple) and v.dims[0][0] == "n":
            return [self.models.getitem(self, v, i) for i in range(v.dims[0][1])]
        if isinstance(v, PhiVal) and n is not None:
            a = list(self.iterate(v.a, n))
            b = list(self.iterate(v.b, n))
            if len(a) == len(b):
                return [self.phi(v.c, x, y) for x, y in zip(a, b)]
        r = self.models.iterate_ext(self, v, n)
        if r is not None:
            return r
        if isinstance(v, Num) and not v.dims:
            raise AbsRaise(ExcV("TypeError", "iteration over a scalar"))
        raise Unsupported(f"iteration on {v!r}")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=AbsRaise):
        if isinstance(o, PhiVal):
            o = self.simplify_phi(o)
            if isinstance(o, PhiVal):
                return self.cond_eval(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, ClassV):
            v, k = o.lookup(name)
            if k is not None:
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClsM):
                    return Bound(v.f, o)
                return self.cur(v) if isinstance(v, Num) else v
            if name == "__name__":
                return o.name
            if name in ("_fields",) and o.kind == "namedtuple":
                return tuple(o.annots)
            if name == "__init__":
                return Ext("builtins.object.__init__")
            r = self.models.class_getattr(self, o, name)
            if r is not None:
                return r
            raise AbsRaise(ExcV("AttributeError", f"{o.name}.{name}"))
        if isinstance(o, ModuleV):
            d = self.hget(o.loc)
            if name in d:
                v = d[name]
                return self.cur(v) if isinstance(v, Num) else v
            if self.find_module(o.name + "." + name):
                return self.import_module(o.name + "." + name)
            raise AbsRaise(ExcV("AttributeError", f"module {o.name}.{name}"))
        if isinstance(o, SuperV):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).mro()
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    return self.bind(k.ns[name], o.obj)
            r = self.models.super_getattr(self, o, name)
            return r
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            raise AbsRaise(ExcV("AttributeError", name))
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            if name == "__name__":
                return o.func.name
        return self.models.val_getattr(self, o, name)

    def obj_getattr(self, o, name):
        v, k = o.cls.lookup(name)
        if isinstance(v, PropV):
            if v.cached:
                d = self.hget(o.loc)
                if name in d:
                    r = d[name]
                    return self.cur(r) if isinstance(r, Num) else r
                r = self.call(v.fget, [o], {})
                self.hset(o.loc, name, r)
                return r
            return self.call(v.fget, [o], {})
        d = self.hget(o.loc)
        if name in d:
            r = d[name]
            if isinstance(r, PhiVal):
                r = self.simplify_phi(r)
                if isinstance(r, PhiVal) and (r.a is UNDEF or r.b is UNDEF):
                    good = r.b if r.a is UNDEF else r.a
                    st = self.st.fork()
                    cond = r.c if r.b is UNDEF else al.not_(r.c)
                    self.raises.append((st.pc + (al.not_(cond),), ExcV("AttributeError", name), st, self.src))
                    r = good
                if r is UNDEF:
                    raise AbsRaise(ExcV("AttributeError", f"{o.cls.name} has no attribute {name}"))
            return self.cur(r) if isinstance(r, Num) else r
        if k is not None:
            r = self.bind(v, o)
            return self.cur(r) if isinstance(r, Num) else r
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return self.new_dict(d)
        g, _ = o.cls.lookup("__getattr__")
        if g is not None:
            return self.call_func(g, [o, name], {})
        r = self.models.inst_getattr(self, o, name)
        if r is not None:
            return r
        raise AbsRaise(ExcV("AttributeError", f"{o.cls.name} has no attribute {name}"))

    def bind(self, v, o):
        if isinstance(v, FuncV) or isinstance(v, CacheV):
            return Bound(v, o)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClsM):
            return Bound(v.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        return v

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self] + list(args), kwargs)
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            v, k = f.cls.lookup("__call__")
            if k is not None:
                return self.call(self.bind(v, f), args, kwargs)
            return self.models.call_inst(self, f, args, kwargs)
        if isinstance(f, PhiVal):
            f = self.simplify_phi(f)
            if isinstance(f, PhiVal):
                return self.cond_eval(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
            return self.call(f, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, CacheV):
            return f.call(self, args, kwargs)
        return self.models.call(self, f, args, kwargs)

    def instantiate(self, c, args, kwargs):
        h = self.hooks.get("instantiate")
        if h is not None:
            r = h(self, c, args, kwargs)
            if r is not None:
                return r
        if any(b.split(".")[-1] in self.models.EXCEPTIONS for b in c.ext_bases()):
            e = ExcV(c)
            e.args = tuple(args)
            init, k = c.lookup("__init__")
            return e
        new, k = c.lookup("__new__")
        if isinstance(new, StaticV):
            new = new.f
        if isinstance(new, FuncV):
            o = self.call_func(new, [c] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls.issub(c)):
                return o
            if c.lookup("__init__")[0] is None:
                return o
        else:
            o = Obj(c)
            self.st.heap[o.loc] = {}
        if c.kind == "namedtuple":
            names = c.annots
            d = {}
            for n, a in zip(names, args):
                d[n] = a
            for n, a in kwargs.items():
                if n not in names:
                    raise AbsRaise(ExcV("TypeError", f"unexpected argument {n}"))
                d[n] = a
            for n in names:
                if n not in d:
                    v, k = c.lookup(n)
                    if k is None:
                        raise AbsRaise(ExcV("TypeError", f"missing argument {n}"))
                    d[n] = v
            self.st.heap[o.loc] = d
            return o
        init, k = c.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
            return o
        if c.kind == "dataclass":
            names = c.fields
            if len(args) > len(names):
                raise AbsRaise(ExcV("TypeError", "too many arguments"))
            got = dict(zip(names, args))
            for n, a in kwargs.items():
                if n not in names or n in got:
                    raise AbsRaise(ExcV("TypeError", f"unexpected argument {n}"))
                got[n] = a
            for n in names:
                if n not in got:
                    v, k = c.lookup(n)
                    if k is None:
                        raise AbsRaise(ExcV("TypeError", f"missing argument {n}"))
                    if isinstance(v, ExtObj) and v.kind == "field":
                        v = self.call(v.data["default_factory"], [], {}) if "default_factory" in v.data else v.data["default"]
                    got[n] = v
                self.setattr(o, n, got[n])
            pi, k = c.lookup("__post_init__")
            if pi is not None:
                self.call_func(pi, [o], {})
            return o
        r = self.models.ext_init(self, o, args, kwargs)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsRaise(ExcV("TypeError", f"{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given"))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in konly:
                if k in out:
                    raise AbsRaise(ExcV("TypeError", f"{f.qual}() got multiple values for argument {k}"))
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise AbsRaise(ExcV("TypeError", f"{f.qual}() got an unexpected keyword argument {k}"))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    raise AbsRaise(ExcV("TypeError", f"{f.qual}() missing argument {n}"))
        for n in konly:
            if n not in out:
                if n in f.kwdefaults:
                    out[n] = f.kwdefaults[n]
                else:
                    raise AbsRaise(ExcV("TypeError", f"{f.qual}() missing argument {n}"))
        return out

    def call_func(self, f, args, kwargs):
        h = self.intrinsics.get(f.qual)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        vars_ = self.bind_args(f, args, kwargs)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported("recursion too deep in " + f.qual)
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        src = self.src
        env = Env(self, f.module, f, f.closure, f.qual)
        env.defcls = f.owner or getattr(f, "defcls", None)
        self.st.heap[env.loc] = dict(vars_)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            base = self.st.pc
            assume0 = dict(self.st.assume)
            comps = self.exec_block(f.node.body, env)
            if is_gen(f.node):
                if comps is not None and any(c.kind == "r" for c in comps):
                    raise Unsupported("generator with return")
                return self.new_list(env.yields)
            if comps is None:
                return None
            rs = [c for c in comps if c.kind in "rn"]
            if len(rs) == 1:
                self.st = rs[0].st
                return rs[0].val
            acc = rs[-1]
            accst, accv = acc.st, acc.val
            accg = self.guard(accst, base)
            for c in reversed(rs[:-1]):
                g = self.guard(c.st, base)
                val = self.phi(g, c.val, accv, c.st, accst)
                accst = self.join2(g, c.st, accst, base)
                accv = val
                accg = al.canon(al.add(accg, g))
            accst.pc = base if accg == ONE else base + (accg,)
            self.st = accst
            return accv
        finally:
            self.depth -= 1
            self.src = src
            al.CURRENT_SRC[0] = src
            h = self.st.heap
            if env.loc in h and not getattr(f, "keep", False) and not has_inner(f.node):
                del h[env.loc]


_gen_cache = {}
_inner_cache = {}


def is_gen(node):
    r = _gen_cache.get(node)
    if r is None:
        r = is_generator(node)
        _gen_cache[node] = r
    return r


def has_inner(node):
    r = _inner_cache.get(node)
    if r is None:
        r = any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
                and x is not node for x in ast.walk(node))
        _inner_cache[node] = r
    return r


class _Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


class ListPhi:
    """payload of a list whose length differs between the branches"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SymListP:
    """payload of a list filled in a loop over dim"""

    def __init__(self, dim, val):
        self.dim, self.val = dim, val


class CacheV:
    """functools.lru_cache / cache"""

    def __init__(self, f):
        self.f = f
        self.loc = newloc()
        self.owner = None

    @property
    def name(self):
        return self.f.name

    def key(self, a):
        if isinstance(a, Num):
            return ("num", a.node, a.unit)
        if isinstance(a, (Obj, ListV, DictV)):
            return ("obj", a.loc)
        try:
            hash(a)
            return a
        except TypeError:
            return id(a)

    def call(self, I, args, kwargs):
        st = I.st.heap.setdefault(self.loc, {})
        k = (tuple(self.key(a) for a in args), tuple(sorted((n, self.key(v)) for n, v in kwargs.items())))
        if k in st:
            v = st[k]
            return I.cur(v) if isinstance(v, Num) else v
        v = I.call(self.f, args, kwargs)
        I.hset(self.loc, k, v) if self.loc in I.st.heap else I.st.heap.__setitem__(self.loc, {k: v})
        return v


class Env:
    """one activation of a function, a class body or a module"""

    def __init__(self, I, module, func, closure, qual):
        self.I, self.module, self.func, self.closure, self.qual = I, module, func, closure, qual
        self.loc = newloc()
        self.is_module = self.is_class = False
        self.defcls = None
        self.globals_, self.nonlocals = set(), set()
        self.handling = []
        self.yields = []
        self.parent = None

    def child(self):
        """scope of a comprehension"""
        e = Env(self.I, self.module, self.func, [self.loc] + self.closure if not self.is_module else list(self.closure), self.qual)
        self.I.st.heap[e.loc] = {}
        e.defcls = self.defcls
        e.parent = self
        e.handling = self.handling
        return e

    def lookup_local(self, name):
        return self.I.st.heap[self.loc].get(name, UNDEF)

    def first_arg(self):
        e = self
        while e.parent is not None:
            e = e.parent
        if e.func is None or isinstance(e.func.node, ast.Lambda):
            raise Unsupported("super() outside of a method")
        a = e.func.node.args
        n = (a.posonlyargs + a.args)[0].arg
        return self.I.st.heap[e.loc][n]

    def get(self, name):
        h = self.I.st.heap
        if name not in self.globals_:
            d = h[self.loc]
            if name in d:
                return d[name]
            for c in self.closure:
                d = h.get(c)
                if d is not None and name in d:
                    return d[name]
            if self.func is not None and self.parent is None and not isinstance(self.func.node, ast.Lambda) and name in assigned(self.func.node):
                return UNDEF
        d = h[self.module.loc]
        if name in d:
            return d[name]
        b = self.I.models.builtin(self.I, name)
        if b is not None:
            return b
        raise AbsRaise(ExcV("NameError", name))

    def set(self, name, v):
        if name in self.globals_:
            self.I.event("global_write", module=self.module.name, name=name)
            self.I.hset(self.module.loc, name, v)
            return
        if name in self.nonlocals:
            for c in self.closure:
                d = self.I.st.heap.get(c)
                if d is not None and name in d:
                    self.I.hset(c, name, v)
                    return
        self.I.hset(self.loc, name, v)

    def delete(self, name):
        d = dict(self.I.st.heap[self.loc])
        d.pop(name, None)
        self.I.st.heap[self.loc] = d


_assigned = {}


def assigned(node):
    r = _assigned.get(node)
    if r is None:
        r = set()
        glob = set()

        def walk(n, top):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    r.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    continue
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob.update(x.names)
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r.add(x.id)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    r.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        r.add((a.asname or a.name).split(".")[0])
                walk(x, False)

        walk(node, True)
        r -= glob
        _assigned[node] = r
    return r
