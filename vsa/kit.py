"""Scenario builder and verdict recorder shared by the property checkers."""
import os
import sys
import time
import traceback
import astropy.units as u
from . import algebra as al
from .algebra import E, F, ONE, ZERO, lift
from .values import *
from .interp import Interp, UNDEF, ListPhi, SymListP
from . import models

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VSA_ROOT", "/repo")
SPECS = os.path.join(HERE, "specs")


class Violation:
    def __init__(self, prop, instance, rule, detail, where, extra=None):
        self.prop, self.instance, self.rule, self.detail, self.where = prop, instance, rule, detail, where
        self.extra = extra or {}

    def key(self):
        return self.instance

    def as_dict(self):
        return dict(property=self.prop, instance=self.instance, rule=self.rule, detail=self.detail,
                    construct=[dict(file=w[0], line=w[1], function=w[2]) for w in self.where if w], **self.extra)


class Check:
    """collects the obligations of one property"""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obligations = []      # (instance, rule)
        self.violations = []
        self.undecided = []
        self.functions = {}
        self.stmts = set()
        self.files = set()
        self.notes = []
        self.t0 = time.time()
        self.minimum = 1
        self.flag = None           # shared by the processes of one check

    def enough(self, seconds=400):
        """a violation has been found, or the time for further expansions is over"""
        return bool(self.violations) or self.flag is not None and self.flag.value > 0 or time.time() - self.t0 > seconds

    def ok(self, instance, rule):
        self.obligations.append((instance, rule))

    def violate(self, instance, rule, detail, where, **extra):
        self.obligations.append((instance, rule))
        where = [w for w in where if w]
        if not where:
            where = [("?", 0, "?")]
        self.violations.append(Violation(self.prop, instance, rule, detail, where, extra))
        if self.flag is not None:
            self.flag.value = 1

    def undecide(self, instance, why):
        self.undecided.append((instance, why))

    def absorb(self, sc):
        for k, v in sc.I.called.items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.stmts |= sc.I.stmts
        self.files |= {sc.I.rel(f) for f in sc.I.files}


    def parallel(self, jobs, workers=8):
        """run job(check) for every job in forked processes and merge what they record, in order"""
        import multiprocessing as mp
        import pickle
        ctx = mp.get_context("fork")
        todo = list(enumerate(jobs))
        running, done = {}, {}
        flag = ctx.Value("i", 0)

        def child(job, path):
            c = Check(self.prop, self.tier, self.seed)
            c.flag, c.t0 = flag, self.t0
            with Instance(c, "job"):
                job(c)
            with open(path, "wb") as f:
                pickle.dump((c.obligations, [(v.instance, v.rule, v.detail, v.where, v.extra) for v in c.violations],
                             c.undecided, c.functions, c.stmts, c.files, c.notes), f)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)

        import tempfile
        with tempfile.TemporaryDirectory() as tmp:
            def start():
                while todo and len(running) < workers:
                    i, job = todo.pop(0)
                    p = ctx.Process(target=child, args=(job, os.path.join(tmp, str(i))))
                    p.start()
                    running[i] = p
            start()
            from multiprocessing.connection import wait
            while running:
                wait([p.sentinel for p in running.values()])
                for i in list(running):
                    if not running[i].is_alive():
                        running.pop(i).join()
                        try:
                            with open(os.path.join(tmp, str(i)), "rb") as f:
                                done[i] = pickle.load(f)
                        except Exception as x:
                            done[i] = ([], [], [(f"job {i}", f"the analysis process ended: {x!r}")], {}, set(), set(), [])
                start()
        for i in sorted(done):
            ob, vi, un, fu, st, fi, no = done[i]
            self.obligations += ob
            self.violations += [Violation(self.prop, *v) for v in vi]
            self.undecided += un
            for k, v in fu.items():
                self.functions[k] = self.functions.get(k, 0) + v
            self.stmts |= st
            self.files |= fi
            self.notes += no


class Stop(Exception):
    """the instance has been decided (a violation was recorded)"""


class Instance:
    """with chk.instance(...): an obligation analysed in isolation"""

    def __init__(self, chk, name, sc=None, entry=None):
        self.chk, self.name, self.sc, self.entry = chk, name, sc, entry

    def __enter__(self):
        return self

    def __exit__(self, t, x, tb):
        if t is None:
            return False
        if issubclass(t, Stop):
            return True
        if issubclass(t, AbsRaise):
            self.chk.violate(self.name, "no exception for valid input",
                             f"raises {x.exc!r}", [x.src, getattr(x.exc, "src", None)])
            return True
        if issubclass(t, Unsupported):
            self.chk.undecide(self.name, f"{x} at {x.src}")
        elif issubclass(t, al.AlgebraLimit):
            self.chk.undecide(self.name, f"normal form too large ({x}) near {al.CURRENT_SRC[0]}")
        elif issubclass(t, (KeyboardInterrupt, SystemExit)):
            return False
        else:
            self.chk.undecide(self.name, "internal: " + "".join(traceback.format_exception(t, x, tb)[-6:])
                              + f" near {al.CURRENT_SRC[0]}")
        if os.environ.get("VSA_DEBUG"):
            traceback.print_exception(t, x, tb)
        return True


def U(x):
    return x if x is None or isinstance(x, u.UnitBase) else u.Unit(x)


class Scenario:
    """an analysis of the package with symbolic inputs"""

    def __init__(self, chk=None, stubs=None, generic=True, loglog=True):
        self.chk = chk
        self.I = Interp(ROOT, stubs=stubs, generic=generic)
        if loglog:
            self.I.intrinsics["agnpy.utils.math.trapz_loglog"] = models.loglog_intrinsic
        self.I.import_module("agnpy")
        self.specs = {}
        self.modular = True

    # ---- names
    def mod(self, name):
        m = self.I.import_module(name)
        if not isinstance(m, ModuleV):
            raise Unsupported(f"module {name} not found")
        return m

    def get(self, path):
        m, n = path.split(":")
        v = self.I.hget(self.mod(m).loc).get(n)
        if v is None:
            raise AbsRaise(ExcV("ImportError", f"{n} from {m}"))
        return v

    def ns(self, mod):
        return self.I.hget(self.mod(mod).loc)

    def spec(self, path, *a, **k):
        m, n = path.split(":")
        mod = self.specs.get(m)
        if mod is None:
            p = os.path.join(SPECS, m + ".py")
            mod = self.I.load_source("spec_" + m, open(p).read(), p)
            self.specs[m] = mod
        f = self.I.hget(mod.loc)[n]
        save = self.I.generic
        r = self.I.call(f, list(a), k)
        return r

    # ---- inputs
    def q(self, name, unit=None, dims=(), pos=True, dt="f", node=None):
        un = U(unit)
        n = node if node is not None else al.sym(name, pos, tuple(dims))
        if un is not None:
            n = al.mul2(n, unit_scale(un))
        return Num(n, un, tuple(dims), dt)

    def num(self, name, pos=True, dt="f"):
        return Num(al.sym(name, pos), None, (), dt, arr=False)

    def arr(self, name, dim, pos=True, unit=None, dt="f"):
        return self.q(name, unit, (dim,), pos, dt)

    # ---- operations
    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(a), k)

    def attr(self, o, name):
        for n in name.split("."):
            o = self.I.getattr(o, n)
        return o

    def set(self, o, name, v):
        parts = name.split(".")
        for n in parts[:-1]:
            o = self.I.getattr(o, n)
        self.I.setattr(o, parts[-1], v)

    def m(self, o, name, *a, **k):
        return self.I.call(self.attr(o, name), list(a), k)

    def item(self, o, k):
        return self.I.models.getitem(self.I, o, k)

    def op(self, a, o, b):
        import ast
        return self.I.binop({"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "**": ast.Pow}[o](), a, b)

    def np(self, f, *a, **k):
        return self.I.call(Ext("numpy." + f), list(a), k)

    def where(self, f, name=None):
        """location of a function, method or class"""
        if isinstance(f, str):
            try:
                f = self.get(f)
            except Exception:
                return None
        if isinstance(f, Obj):
            f = f.cls
        if name and isinstance(f, ClassV):
            v, k = f.lookup(name)
            f = v if v is not None else f
        if isinstance(f, PropV):
            f = f.fget
        if isinstance(f, StaticV) or isinstance(f, ClsM):
            f = f.f
        if isinstance(f, Bound):
            f = f.func
        if isinstance(f, FuncV):
            return (self.I.rel(f.module.path), f.node.lineno, f.qual)
        if isinstance(f, ClassV):
            return (self.I.rel(f.module.path), f.node.lineno if f.node else 0, f.qual)
        return None

    # ---- branches that may raise
    def mark(self):
        return len(self.I.raises), len(self.I.events)


def num_of(v):
    """Num of a numeric value"""
    if isinstance(v, Num):
        return v
    if isinstance(v, (bool, int, float)):
        return scalar(v)
    return None


def sources(e, root=None):
    """source locations of the atoms of an expression"""
    out = []
    for i in sorted(al.all_atoms(e), reverse=True):
        s = al.ATOMS[i].src
        if s and s not in out and not s[0].startswith("/") and "specs" not in s[0]:
            out.append(s)
    return out


def diff_sources(got, want):
    w = al.all_atoms(want)
    out = []
    for i in sorted(al.all_atoms(got) - w):
        s = al.ATOMS[i].src
        if s and s not in out and s[0] and not s[0].startswith("/"):
            out.append(s)
    return out


def short(e, n=600):
    s = al.show(e, 5)
    return s if len(s) <= n else s[:n] + " …"


def compare(got, want, check_unit=True, check_dims=True, tol_dims=False):
    """None when equal, otherwise the reason"""
    if isinstance(got, (tuple,)) and isinstance(want, tuple):
        if len(got) != len(want):
            return f"{len(got)} values instead of {len(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            r = compare(a, b, check_unit, check_dims)
            if r:
                return type(r)(f"element {i}: {r}")
        return None
    g, w = num_of(got), num_of(want)
    if w is None:
        if want is got or (not isinstance(got, Num) and want == got):
            return None
        return f"{got!r} instead of {want!r}"
    if isinstance(got, PhiVal) and isinstance(want, Num):
        ra = compare(got.a, want, check_unit, check_dims)
        rb = compare(got.b, want, check_unit, check_dims)
        if ra and not isinstance(ra, Open) or not rb:
            return ra and type(ra)(f"on one path ({al.show(got.c)[:120]}): {ra}")
        return type(rb)(f"on one path (not {al.show(got.c)[:120]}): {rb}")
    if g is None:
        return f"not a number: {got!r}"
    if check_unit:
        gu, wu = g.unit or DIMLESS, w.unit or DIMLESS
        if not gu.is_equivalent(wu):
            return f"unit {g.unit!r} instead of {w.unit!r}"
    if check_dims:
        if tuple(d for d in g.dims if d != 1) != tuple(d for d in w.dims if d != 1):
            return f"axes {[al.showdim(d) for d in g.dims]} instead of {[al.showdim(d) for d in w.dims]}"
    if not al.equal(g.node, w.node):
        from . import refute
        if refute.refuted(g.node, w.node):
            return "different value"
        return Open("the two values were neither shown to be equal nor to differ")
    return None


class Open(str):
    """a comparison without an answer"""


def expect_equal(chk, sc, inst, rule, got, want, where=(), check_unit=True, check_dims=True):
    r = compare(got, want, check_unit, check_dims)
    if r is None:
        chk.ok(inst, rule)
        return True
    if isinstance(r, Open):
        chk.undecide(inst, str(r))
        return False
    g, w = num_of(got), num_of(want)
    loc = list(where)
    extra = {}
    if g is not None and w is not None:
        loc = [x for x in loc if x] + diff_sources(g.node, w.node)[:6]
        extra = dict(found=short(g.node), required=short(w.node))
    chk.violate(inst, rule, r, loc, **extra)
    return False


def no_raises(chk, sc, inst, mark, rule="no exception for valid input", allow=()):
    """conditional exceptions recorded since mark"""
    bad = []
    for pc, exc, st, src in sc.I.raises[mark[0]:]:
        if exc.name in allow:
            continue
        bad.append((exc, src, pc))
    if bad:
        exc, src, pc = bad[0]
        chk.violate(inst, rule, f"may raise {exc!r} when {' and '.join(al.show(c)[:200] for c in pc)}", [src, getattr(exc, 'src', None)])
        return False
    return True


def number(x):
    """exact constant (a fraction written as a string or a number)"""
    from fractions import Fraction
    return Num(al.lift(Fraction(x)), None, (), "f", arr=False)


def expect_raises(chk, sc, inst, names, f, where, rule="invalid input raises"):
    """the call must end with one of the exceptions on every path"""
    try:
        r = f()
    except AbsRaise as x:
        if any(models.exc_sub(x.exc.name, n) for n in names):
            chk.ok(inst, rule)
        else:
            chk.violate(inst, rule, f"raises {x.exc!r} instead of {' or '.join(names)}", list(where) + [x.src])
        return
    chk.violate(inst, rule, f"accepted: {r!r}", where)


def fit_stubs():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
    e = os.path.join(d, "empty.py")
    t = {"gammapy": e, "gammapy.modeling": os.path.join(d, "gammapy_modeling.py"),
         "gammapy.modeling.models": os.path.join(d, "gammapy_models.py"), "sherpa": e, "sherpa.models": e,
         "sherpa.models.model": os.path.join(d, "sherpa_model.py"), "sherpa.models.parameter": os.path.join(d, "sherpa_model.py"),
         "astropy.table": os.path.join(d, "astropy_table.py"), "sherpa.data": os.path.join(d, "sherpa_data.py"),
         "gammapy.estimators": os.path.join(d, "gammapy_data.py"), "gammapy.datasets": os.path.join(d, "gammapy_data.py")}
    return t


def modular(sc, path, name, unit, axis):
    """treat the method as an uninterpreted function of the values of all its arguments (congruence)"""
    c = sc.get(path)
    f, _ = c.lookup(name)
    f = f.f if isinstance(f, (StaticV, ClsM)) else f

    def key(I, v, along):
        if isinstance(v, PhiVal):
            v = I.simplify_phi(v)
        n = num_of(v) if not isinstance(v, bool) else None
        if n is not None:
            e = al.canon(n.node)
            for d in n.dims:
                if d != 1 and d not in along:
                    e = al.reduce_("whole", e, d)
            return [e]
        if v is None or isinstance(v, (bool, str)):
            return [repr(v)]
        if isinstance(v, tuple):
            return ["("] + [y for x in v for y in key(I, x, along)] + [")"]
        if isinstance(v, Obj):
            return [f"obj {v.loc}"]
        if isinstance(v, FuncV):
            return [f.qual]
        if isinstance(v, Ext):
            return [v.name]
        raise Unsupported(f"{name}: argument {v!r}")

    def handler(I, f_, args, kwargs):
        if not sc.modular:
            return NotImplemented
        b = I.bind_args(f_, args, kwargs)
        for n, v in list(b.items()):
            if isinstance(v, DictV):
                del b[n]
                b.update(I.hget(v.loc))
        x = num_of(b[axis])
        ks = []
        for n in sorted(b):
            if n != "self":
                ks += [n] + key(I, b[n], x.dims)
        un = U(unit)
        I.called[f_.qual] = I.called.get(f_.qual, 0) + 1
        return Num(al.mul2(al.fn("call:" + name, *ks), unit_scale(un)), un, x.dims, "f")

    sc.I.intrinsics[f.qual] = handler
