"""Models of the external libraries (builtins, numpy, astropy, scipy, ...).

Only their documented behaviour on abstract values is described here."""
import ast
import astropy.units as u
import astropy.constants as _const
import numpy as _np
from . import algebra as al
from .algebra import (E, F, ONE, ZERO, MINUS1, PI, lift, const, mul, mul2, add, sub, inv, sym, rpow, power, canon)
from .values import *
from . import values as V

EXT = {}       # name -> handler(I, args, kwargs)
NUMATTR = {}   # attribute of a number -> handler(I, num)
NUMMETH = {}   # method of a number -> handler(I, num, args, kwargs)


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def nummeth(*names):
    def deco(f):
        for n in names:
            NUMMETH[n] = f
        return f
    return deco


def numattr(*names):
    def deco(f):
        for n in names:
            NUMATTR[n] = f
        return f
    return deco


def err(kind, msg=""):
    return AbsRaise(ExcV(kind, msg))


# ------------------------------------------------------------- exceptions
EXCEPTIONS = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "AssertionError": "Exception", "StopIteration": "Exception",
    "UnitConversionError": "UnitsError", "UnitsError": "ValueError", "UnitTypeError": "UnitsError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "Warning": "Exception", "UserWarning": "Warning", "RuntimeWarning": "Warning",
    "DeprecationWarning": "Warning", "FutureWarning": "Warning", "GridMismatch": "ValueError", "ParameterErr": "Exception",
    "RecursionError": "RuntimeError", "MemoryError": "Exception", "EnvironmentError": "OSError", "IOError": "OSError",
}


def exc_sub(name, target):
    while name is not None:
        if name == target:
            return True
        name = EXCEPTIONS.get(name)
    return False


# -------------------------------------------------------------- constants
CONST_SYMS = {}


def _mkconst(name, unit):
    s = sym(name, True)
    CONST_SYMS[s.m[0][0]] = name
    return Num(s, unit, (), "f", flags=("const", name))


CONSTANTS = {
    "c": _mkconst("c", _const.c.unit), "m_e": _mkconst("m_e", _const.m_e.unit),
    "m_p": _mkconst("m_p", _const.m_p.unit), "m_n": _mkconst("m_n", _const.m_n.unit),
    "h": _mkconst("h", _const.h.unit), "hbar": _mkconst("hbar", _const.hbar.unit), "G": _mkconst("G", _const.G.unit),
    "k_B": _mkconst("k_B", _const.k_B.unit), "sigma_T": _mkconst("sigma_T", _const.sigma_T.unit),
    "sigma_sb": _mkconst("sigma_sb", _const.sigma_sb.unit), "M_sun": _mkconst("M_sun", _const.M_sun.unit),
    "e": _mkconst("e_SI", _const.e.unit), "mu0": _mkconst("mu0", _const.mu0.unit), "eps0": _mkconst("eps0", _const.eps0.unit),
    "L_sun": _mkconst("L_sun", _const.L_sun.unit), "R_sun": _mkconst("R_sun", _const.R_sun.unit),
    "a0": _mkconst("a0", _const.a0.unit), "alpha": _mkconst("alpha", _const.alpha.unit),
}
E_GAUSS = _mkconst("e", _const.e.gauss.unit)
E_ESU = _mkconst("e", _const.e.esu.unit)


def cval(name):
    return CONSTANTS[name].node


# hbar is h / (2 pi)
CONSTANTS["hbar"] = CONSTANTS["hbar"].replace(node=mul(cval("h"), inv(PI), lift(F(1, 2))))


def install(I):
    I.models = __import__("vsa.models", fromlist=["x"])


# ---------------------------------------------------------------- names
def builtin(I, name):
    if name in BUILTINS or name in EXCEPTIONS:
        return Ext("builtins." + name)
    if name == "Ellipsis":
        return Ellipsis
    if name == "NotImplemented":
        return Ext("builtins.NotImplemented")
    if name == "__name__":
        return "module"
    return None


BUILTINS = set("""len range enumerate zip isinstance issubclass hasattr getattr setattr callable sum min max abs float int
str bool list tuple dict set frozenset sorted reversed map filter any all print type super property staticmethod classmethod round
id repr next iter vars object slice locals open pow divmod hash format delattr bytes complex input dir globals""".split())


def ext_attr(I, o, name):
    full = o.name + "." + name
    if o.name == "astropy.constants" or o.name == "astropy.constants.si" or o.name == "astropy.constants.cgs":
        if name in CONSTANTS:
            return CONSTANTS[name]
    if o.name in ("astropy.units", "astropy.units.si", "astropy.units.cgs", "astropy.units.astrophys", "astropy.units.imperial"):
        v = getattr(u, name, None)
        if isinstance(v, u.UnitBase):
            return v
        return Ext("astropy.units." + name)
    if o.name == "astropy" and name in ("units", "constants"):
        return Ext(full)
    if o.name in ("numpy", "math", "numpy.core"):
        if name == "pi":
            return Num(PI)
        if name == "inf":
            return Num(al.INF)
        if name == "nan":
            return Num(al.NAN)
        if name == "e":
            return Num(E(F(1), ((al._EULER.id, F(1)),)))
        if name == "newaxis":
            return None
    m = I.import_module(full) if full in I.stubs or full.startswith(I.package + ".") else None
    if m is not None and not isinstance(m, Ext):
        return m
    return Ext(full)


def val_getattr(I, o, name):
    import builtins
    if isinstance(o, int):
        o2 = scalar(o)
        if name in ("real",):
            return o
        o = o2
    if isinstance(o, Num):
        h = NUMATTR.get(name)
        if h is not None:
            return h(I, o)
        if name in NUMMETH:
            return BuiltinM(o, name, NUMMETH[name])
        raise err("AttributeError", f"number has no attribute {name}")
    if isinstance(o, u.UnitBase):
        if name == "physical_type":
            return ExtObj("physical_type", t=o.physical_type)
        if name in ("to", "is_equivalent", "decompose", "to_string", "cgs", "si"):
            if name in ("cgs", "si"):
                return builtins.getattr(o, name)
            return BuiltinM(o, name, UNITMETH[name])
        if name in ("bases", "powers", "name", "names", "scale"):
            v = builtins.getattr(o, name)
            return scalar(v) if isinstance(v, float) else v
        raise err("AttributeError", f"unit has no attribute {name}")
    if isinstance(o, Ext):
        if o.name.startswith("builtins."):
            nm = o.name.split(".")[1]
            if nm in ("dict", "str", "list", "object") or nm in EXCEPTIONS:
                if name == "__name__":
                    return nm
            if o.name == "builtins.locals":
                return Ext(o.name + "." + name)
        if name == "__name__":
            return o.name.split(".")[-1]
        return ext_attr(I, o, name)
    if isinstance(o, str):
        if name in STRMETH:
            return BuiltinM(o, name, STRMETH[name])
        raise err("AttributeError", f"str has no attribute {name}")
    if isinstance(o, ListV):
        if name in LISTMETH:
            return BuiltinM(o, name, LISTMETH[name])
        raise err("AttributeError", f"list has no attribute {name}")
    if isinstance(o, DictV):
        if name in DICTMETH:
            return BuiltinM(o, name, DICTMETH[name])
        raise err("AttributeError", f"dict has no attribute {name}")
    if isinstance(o, SetV):
        if name in SETMETH:
            return BuiltinM(o, name, SETMETH[name])
        raise err("AttributeError", f"set has no attribute {name}")
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return BuiltinM(o, name, lambda I, t, a, k: _seq_meth(I, t, name, a))
        raise err("AttributeError", f"tuple has no attribute {name}")
    if isinstance(o, ExtObj):
        h = OBJATTR.get((o.kind, name))
        if h is not None:
            return h(I, o)
        h = OBJMETH.get((o.kind, name))
        if h is not None:
            return BuiltinM(o, name, h)
        if name in o.data:
            return o.data[name]
        raise Unsupported(f"attribute {name} of {o!r}")
    if isinstance(o, ExcV):
        if name == "args":
            return tuple(o.args)
        if name == "with_traceback":
            return BuiltinM(o, name, lambda I, t, a, k: t)
        return Opaque("exception." + name)
    if isinstance(o, PathV):
        import posixpath
        if name == "parent":
            return PathV(posixpath.dirname(o.s))
        if name in ("name", "stem", "suffix"):
            import pathlib
            return getattr(pathlib.PurePosixPath(o.s), name)
        if name in ("resolve", "absolute", "expanduser"):
            return BuiltinM(o, name, lambda I, t, a, k: t)
        if name == "joinpath":
            return BuiltinM(o, name, lambda I, t, a, k: EXT["pathlib.Path"](I, [t] + list(a), k))
        return Opaque("path." + name)
    if isinstance(o, (Opaque,)):
        return Opaque(o.what + "." + name)
    if o is None:
        raise err("AttributeError", f"NoneType has no attribute {name}")
    if isinstance(o, SymList):
        if name in ("append",):
            raise Unsupported("append on a sequence of unknown length")
    if isinstance(o, UserFunc):
        if name == "__name__":
            return o.name
        raise err("AttributeError", name)
    if isinstance(o, BuiltinM) and name == "__name__":
        return o.name
    if isinstance(o, PropV):
        raise err("AttributeError", name)
    raise Unsupported(f"attribute {name} of {o!r}")


OBJATTR = {}
OBJMETH = {}
OBJCALL = {}


def _seq_meth(I, t, name, a):
    if name == "index":
        for i, x in enumerate(t):
            if I.truth(compare(I, ast.Eq(), x, a[0])) is True:
                return i
        raise err("ValueError", "not in sequence")
    return sum(1 for x in t if I.truth(compare(I, ast.Eq(), x, a[0])) is True)


def class_getattr(I, c, name):
    for b in c.ext_bases():
        h = EXT.get(b + "." + name)
        if h is not None:
            return Ext(b + "." + name)
    if name == "__doc__":
        return Opaque("doc")
    if name == "__mro__":
        return tuple(c.mro())
    return None


def super_getattr(I, s, name):
    if name == "__init__":
        o = s.obj
        bases = o.cls.ext_bases()

        def init(I, _, args, kwargs):
            return ext_init(I, o, args, kwargs)

        return BuiltinM(o, "__init__", init)
    if name == "__setattr__":
        return BuiltinM(s.obj, name, lambda I, o, a, k: I.raw_setattr(o, a[0], a[1]))
    if name == "__getattribute__":
        return BuiltinM(s.obj, name, lambda I, o, a, k: I.obj_getattr(o, a[0]))
    if name in ("__init_subclass__", "__new__"):
        if name == "__new__":
            def new(I, o, a, k):
                r = Obj(a[0])
                I.st.heap[r.loc] = {}
                return r
            return BuiltinM(s.obj, name, new)
        return BuiltinM(s.obj, name, lambda I, o, a, k: None)
    raise err("AttributeError", f"super().{name}")


def inst_getattr(I, o, name):
    if o.cls.kind == "namedtuple":
        if name == "_asdict":
            return BuiltinM(o, name, lambda I, x, a, k: I.new_dict({n: I.hget(x.loc)[n] for n in x.cls.annots}))
        if name == "_replace":
            def rep(I, x, a, k):
                r = Obj(x.cls)
                d = dict(I.hget(x.loc))
                d.update(k)
                I.st.heap[r.loc] = d
                return r
            return BuiltinM(o, name, rep)
        if name == "_fields":
            return tuple(o.cls.annots)
    if name == "__init__":
        return BuiltinM(o, name, lambda I, x, a, k: ext_init(I, x, a, k))
    return None


def ext_init(I, o, args, kwargs):
    if args or kwargs:
        if not o.cls.ext_bases():
            raise err("TypeError", f"{o.cls.name}() takes no arguments")
    return None


def call_inst(I, o, args, kwargs):
    raise err("TypeError", f"{o.cls.name} object is not callable")


def dkey(I, k):
    if isinstance(k, Num):
        c = const(k.node)
        if c is not None and k.unit is None:
            return int(c) if c.denominator == 1 else c
        return ("num", k.node, k.unit)
    if isinstance(k, (str, int, tuple, type(None), Ext, ClassV, FuncV)):
        return k
    if isinstance(k, Obj):
        return ("obj", k.loc)
    return ("key", repr(k))


# ------------------------------------------------------------------ call
def call(I, f, args, kwargs):
    if isinstance(f, BuiltinM):
        return f.fn(I, f.obj, args, kwargs)
    if isinstance(f, Ext):
        h = EXT.get(f.name)
        if h is not None:
            return h(I, args, kwargs)
        if f.name.startswith("builtins."):
            nm = f.name[9:]
            if nm in EXCEPTIONS:
                e = ExcV(nm, str(args[0]) if args else "")
                e.args = tuple(args)
                return e
        top = f.name.split(".")[0]
        leaf = f.name.split(".")[-1]
        if leaf in EXCEPTIONS or leaf.endswith("Error") or leaf.endswith("Warning"):
            return ExcV(leaf if leaf in EXCEPTIONS else "Exception")
        if top in IGNORED:
            return Opaque(f.name)
        return opaque_call(I, f.name, args, kwargs)
    if isinstance(f, ExtObj):
        h = OBJCALL.get(f.kind)
        if h is not None:
            return h(I, f, args, kwargs)
    if isinstance(f, UserFunc):
        if f.handler is not None:
            return f.handler(I, f, args, kwargs)
        if f.role == "integrator":
            return integrate(I, f.name, args, kwargs)
        return user_call(I, f, args, kwargs)
    if isinstance(f, Opaque):
        return Opaque(f.what + "()")
    if isinstance(f, u.UnitBase):
        raise err("TypeError", "unit not callable")
    if f is None or isinstance(f, (int, str, tuple, Num, ListV, DictV)):
        raise err("TypeError", f"{type(f).__name__} is not callable")
    if isinstance(f, (PropV,)):
        raise err("TypeError", "property is not callable")
    raise Unsupported(f"call of {f!r}")


IGNORED = {"matplotlib", "logging", "warnings", "typing", "pygments", "mpl_toolkits", "tqdm", "IPython", "functools",
           "importlib", "sys", "time", "abc", "numbers"}


def opaque_call(I, name, args, kwargs):
    raise Unsupported(f"call of the external function {name}")


def user_call(I, f, args, kwargs):
    """unknown pure function of its (numeric) arguments, elementwise"""
    nums = [as_num(I, a) for a in args if isnum(a)]
    dims = ()
    for n in nums:
        dims = broadcast(dims, n.dims)
    return Num(al.fn("user:" + f.name, *[n.node for n in nums]), None, dims)


# ------------------------------------------------------------- shapes
def broadcast(a, b):
    if a == b:
        return a
    la, lb = len(a), len(b)
    n = max(la, lb)
    a = (1,) * (n - la) + tuple(a)
    b = (1,) * (n - lb) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == 1:
            out.append(y)
        elif y == 1 or x == y:
            out.append(x)
        else:
            sx, sy = dim_size(x), dim_size(y)
            if sx is not None and sx == sy or any(isinstance(d, tuple) and d[0] not in ("n", "lin", "less") for d in (x, y)):
                raise Unsupported(f"arrays along {al.showdim(x)} and {al.showdim(y)}")
            raise err("ValueError", f"operands could not be broadcast together: {al.showdim(x)} and {al.showdim(y)}")
    return tuple(out)


def align(x, y):
    """y along the axes of x where both have the same known length"""
    for k in range(1, min(len(x.dims), len(y.dims)) + 1):
        a, b = x.dims[-k], y.dims[-k]
        if a == b or a == 1 or b == 1 or not isinstance(a, tuple) or not isinstance(b, tuple):
            continue
        n = dim_size(a)
        if n is None or n != dim_size(b):
            continue
        if a in y.dims or b in x.dims or a in al.deps(y.node):
            raise Unsupported("axes of the same length")
        ds = list(y.dims)
        ds[-k] = a
        y = y.replace(node=al.at_index(y.node, b, ("dim", a, "renamed")), dims=tuple(ds))
    return y


def dim_size(d):
    """known length of an axis, or None"""
    if d == 1:
        return 1
    if isinstance(d, tuple):
        if d[0] == "lin":
            return d[1] if isinstance(d[1], int) else None
        if d[0] == "n":
            return d[1]
        if d[0] == "less":
            n = dim_size(d[1])
            return None if n is None else n - d[2]
    return None


def size_num(d):
    n = dim_size(d)
    if d == 1:
        return 1
    if n is not None and d[0] == "n":
        return n
    node = E(F(n)) if n is not None else dim_len(d)
    return Num(node, None, (), "i", flags=("size", d))


def dim_len(d):
    if isinstance(d, tuple) and d[0] == "lin":
        return d[1]
    if isinstance(d, tuple) and d[0] == "less":
        return al.sub(dim_len(d[1]), E(F(d[2])))
    if isinstance(d, tuple) and d[0] == "mask":
        return al.count(d[1], d[2])
    if isinstance(d, tuple) and d[0] == "n":
        return E(F(d[1]))
    return sym(("len", d), True)


_seqid = [0]


# ------------------------------------------------------------ conversions
def as_num(I, x):
    if isinstance(x, Num):
        return x
    if isinstance(x, PhiVal):
        x = I.simplify_phi(x)
        if isinstance(x, PhiVal):
            a, b = as_num(I, x.a), as_num(I, x.b)
            r = I.phi(x.c, a, b)
            if isinstance(r, Num):
                return r
            raise Unsupported("number of unknown kind")
        return as_num(I, x)
    if isinstance(x, (bool, int)):
        return scalar(x)
    if isinstance(x, (ListV, tuple, range)):
        return stack(I, x)
    if isinstance(x, list):
        return stack(I, x)
    if isinstance(x, SymList):
        v = as_num(I, x.val)
        return Num(v.node, v.unit, (x.dim,) + v.dims, v.dt)
    if isinstance(x, u.UnitBase):
        return Num(unit_scale(x), x, (), "f")
    if x is None:
        raise err("TypeError", "NoneType in a numeric operation")
    if isinstance(x, str):
        raise err("TypeError", "str in a numeric operation")
    if isinstance(x, ExtObj) and x.kind == "symrange":
        return Num(idx_node(x.data["dim"]), None, (x.data["dim"],), "i")
    if isinstance(x, Obj):
        q = I.models.obj_to_num(I, x)
        if q is not None:
            return q
        raise err("TypeError", f"{x.cls.name} in a numeric operation")
    raise Unsupported(f"{x!r} as a number")


def obj_to_num(I, x):
    return None


def stack(I, seq):
    p = None
    if isinstance(seq, ListV):
        p = I.hget(seq.loc)
        if type(p).__name__ == "SymListP":
            v = as_num(I, p.val)
            return Num(v.node, v.unit, (p.dim,) + v.dims, v.dt)
    items = [as_num(I, x) for x in I.iterate(seq)]
    n = len(items)
    if n == 0:
        return Num(ZERO, None, (("n", 0, ()),), "f")
    dims = ()
    big = max(items, key=lambda x: len(x.dims))
    items = [x if x is big else align(big, x) for x in items]
    for x in items:
        dims = broadcast(dims, x.dims)
    unit = next((x.unit for x in items if x.unit is not None), None)
    if unit is not None:
        for x in items:
            if x.unit is None and const(x.node) != 0 or x.unit is not None and not x.unit.is_equivalent(unit):
                raise err("UnitConversionError", "list of quantities with different units")
    if n == 1:
        return Num(items[0].node, unit, (1,) + dims, items[0].dt)
    nodes = tuple(canon(x.node) for x in items)
    dim = ("n", n, nodes)
    dt = "f" if any(x.dt == "f" for x in items) else items[0].dt
    return Num(al.vec(dim, nodes), unit, (dim,) + dims, dt)


def to_plain(n):
    """dimensionless quantity -> plain number"""
    if n.unit is None:
        return n
    if not n.unit.is_equivalent(u.dimensionless_unscaled):
        raise err("UnitConversionError", f"{n.unit} is not dimensionless")
    return n.replace(unit=None, alias=None, k=ONE)


def fresh(n, **kw):
    return n.replace(alias=None, k=ONE, viewof=None, flags=(), **kw)


# ---------------------------------------------------------------- binops
def _join_units(a, b, opname):
    """common unit for addition-like operations; checks the dimensions"""
    if a.unit is None and b.unit is None:
        return None
    if a.unit is not None and b.unit is not None:
        if not a.unit.is_equivalent(b.unit):
            raise err("UnitConversionError", f"{opname} of {a.unit} and {b.unit}")
        return a.unit
    q, p = (a, b) if a.unit is not None else (b, a)
    if q.unit.is_equivalent(u.dimensionless_unscaled):
        return u.dimensionless_unscaled
    c = const(p.node)
    if c == 0 or p.node in (al.INF, mul2(MINUS1, al.INF), al.NAN):
        return q.unit
    raise err("UnitConversionError", f"{opname} of {q.unit} and a number without unit")


def _dt(a, b, div=False):
    if div:
        return "f"
    if "f" in (a.dt, b.dt):
        return "f"
    if "i" in (a.dt, b.dt):
        return "i"
    return "b"


def binop(I, op, a, b):
    if isinstance(a, PhiVal) or isinstance(b, PhiVal):
        if isinstance(a, PhiVal):
            a = I.simplify_phi(a)
        if isinstance(b, PhiVal):
            b = I.simplify_phi(b)
        if isinstance(a, PhiVal):
            return I.cond_eval(a.c, lambda: binop(I, op, a.a, b), lambda: binop(I, op, a.b, b))
        if isinstance(b, PhiVal):
            return I.cond_eval(b.c, lambda: binop(I, op, a, b.a), lambda: binop(I, op, a, b.b))
    if isinstance(op, ast.Div) and (isinstance(a, PathV) and isinstance(b, (str, PathV)) or isinstance(a, str) and isinstance(b, PathV)):
        return EXT["pathlib.Path"](I, [a, b], {})
    # units
    if isinstance(a, u.UnitBase) or isinstance(b, u.UnitBase):
        r = unit_binop(I, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, bool) and isinstance(b, bool) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[type(op)]
    if isinstance(a, (int,)) and isinstance(b, (int,)) and not isinstance(op, (ast.Div, ast.MatMult)):
        a, b = int(a), int(b)
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.Pow):
                return a ** b if b >= 0 else scalar(1) .replace(node=E(F(a) ** b), dt="f")
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitXor):
                return a ^ b
            if isinstance(op, ast.LShift):
                return a << b
            if isinstance(op, ast.RShift):
                return a >> b
        except ZeroDivisionError:
            raise err("ZeroDivisionError")
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Opaque("string")
        if isinstance(op, ast.Add) and isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return Opaque("string")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        raise err("TypeError", "string operation")
    if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(op, ast.Mult) and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if isinstance(op, ast.Mult) and isinstance(b, tuple) and isinstance(a, int):
        return a * b
    if isinstance(op, ast.Add) and isinstance(a, ListV) and isinstance(b, ListV):
        return I.new_list(list(I.iterate(a)) + list(I.iterate(b)))
    if isinstance(op, ast.Mult) and isinstance(a, ListV) and not isinstance(b, ListV):
        n = as_int(b)
        if n is None:
            items = list(I.iterate(a))
            if isinstance(b, Num) and b.flags[:1] == ("ndim",):
                return I.new_list(items * b.flags[1])
            raise Unsupported("list repeated an unknown number of times")
        return I.new_list(list(I.iterate(a)) * n)
    if isinstance(op, ast.Mult) and isinstance(b, ListV) and isinstance(a, int):
        return binop(I, op, b, a)
    if isinstance(a, SetV) and isinstance(b, SetV):
        x, y = list(I.iterate(a)), list(I.iterate(b))
        s = SetV()
        if isinstance(op, ast.Sub):
            r = [k for k in x if k not in y]
        elif isinstance(op, ast.BitOr):
            r = x + [k for k in y if k not in x]
        else:
            r = [k for k in x if k in y]
        I.st.heap[s.loc] = r
        return s
    if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
        return I.new_dict({**I.hget(a.loc), **I.hget(b.loc)})
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = obj_binop(I, op, a, b)
        if r is not NotImplemented:
            return r
        for x in (a, b):
            if isinstance(x, Obj) and not x.cls.ext_bases():
                raise err("TypeError", f"unsupported operand: {x.cls.name} object")
    x, y = as_num(I, a), as_num(I, b)
    return num_binop(I, op, x, y)


_DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.Mod: "mod",
           ast.FloorDiv: "floordiv", ast.BitAnd: "and", ast.BitOr: "or", ast.MatMult: "matmul"}


def obj_binop(I, op, a, b):
    n = _DUNDER.get(type(op))
    if n and isinstance(a, Obj):
        f, _ = a.cls.lookup(f"__{n}__")
        if f is not None:
            return I.call(I.bind(f, a), [b], {})
    if n and isinstance(b, Obj):
        f, _ = b.cls.lookup(f"__r{n}__")
        if f is not None:
            return I.call(I.bind(f, b), [a], {})
    return NotImplemented


def as_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Num) and x.unit is None and not x.dims:
        c = const(x.node)
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def unit_binop(I, op, a, b):
    if isinstance(a, u.UnitBase) and isinstance(b, u.UnitBase):
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a / b
        raise err("TypeError", "unit operation")
    if isinstance(a, u.UnitBase):
        if isinstance(op, ast.Pow):
            n = as_num(I, b)
            c = const(n.node)
            if c is None:
                raise Unsupported("unit to an unknown power")
            return a ** c
        if isinstance(b, str):
            return NotImplemented
        y = as_num(I, b)
        one = Num(unit_scale(a), a, (), "f")
        if isinstance(op, ast.Mult):
            return num_binop(I, op, y, one, keepalias=False)
        if isinstance(op, ast.Div):
            return num_binop(I, op, one, y)
        return NotImplemented
    x = as_num(I, a)
    one = Num(unit_scale(b), b, (), "f")
    if isinstance(op, (ast.Mult, ast.Div)):
        return num_binop(I, op, x, one)
    if isinstance(op, ast.LShift):
        if x.unit is None:
            return num_binop(I, ast.Mult(), x, one)
        return _unit_to(I, x, [b], {})
    return NotImplemented


def num_binop(I, op, x, y, keepalias=False):
    y = align(x, y)
    dims = broadcast(x.dims, y.dims)
    arr = x.arr or y.arr
    if isinstance(op, ast.Mult):
        unit = None if x.unit is None and y.unit is None else (x.unit or DIMLESS) * (y.unit or DIMLESS)
        if x.unit is not None and y.unit is not None or unit is not None:
            unit = u.Unit(unit)
        return Num(mul2(x.node, y.node), unit, dims, _dt(x, y), arr=arr)
    if isinstance(op, ast.Div):
        unit = None if x.unit is None and y.unit is None else u.Unit((x.unit or DIMLESS) / (y.unit or DIMLESS))
        if const(y.node) == 0 and not y.arr and not x.arr:
            raise err("ZeroDivisionError")
        return Num(mul2(x.node, inv(y.node)), unit, dims, "f", arr=arr)
    if isinstance(op, (ast.Add, ast.Sub)):
        unit = _join_units(x, y, "sum")
        n = add(x.node, y.node) if isinstance(op, ast.Add) else sub(x.node, y.node)
        if x.dt == "b" and y.dt == "b" and isinstance(op, ast.Add):
            # logical or
            n = sub(n, mul2(x.node, y.node))
        return Num(n, unit, dims, _dt(x, y), arr=arr)
    if isinstance(op, ast.Pow):
        return num_pow(I, x, y)
    if isinstance(op, (ast.BitAnd,)):
        if x.dt == "b" or y.dt == "b":
            return Num(canon(mul2(x.node, y.node)), None, dims, "b", arr=arr)
    if isinstance(op, ast.BitOr):
        if x.dt == "b" or y.dt == "b":
            return Num(canon(sub(add(x.node, y.node), mul2(x.node, y.node))), None, dims, "b", arr=arr)
    if isinstance(op, ast.BitXor):
        if x.dt == "b":
            return Num(canon(sub(add(x.node, y.node), mul(lift(2), x.node, y.node))), None, dims, "b", arr=arr)
    if isinstance(op, (ast.Mod, ast.FloorDiv)):
        unit = _join_units(x, y, "mod")
        nm = "mod" if isinstance(op, ast.Mod) else "floordiv"
        cx, cy = const(x.node), const(y.node)
        if cx is not None and cy:
            v = cx % cy if nm == "mod" else F(cx // cy)
            return Num(E(F(v)), unit if nm == "mod" else None, dims, _dt(x, y), arr=arr)
        s = unit_scale(unit)
        r = al.fn(nm, mul2(x.node, inv(s)), mul2(y.node, inv(s)))
        if nm == "mod":
            return Num(mul2(r, s), unit, dims, _dt(x, y), arr=arr)
        return Num(r, None if unit is None else DIMLESS, dims, _dt(x, y), arr=arr)
    if isinstance(op, ast.MatMult):
        return matmul(I, x, y)
    raise Unsupported(f"operator {type(op).__name__}")


def matmul(I, x, y):
    if len(x.dims) == 1 and len(y.dims) == 1:
        p = num_binop(I, ast.Mult(), x, y)
        return reduce_axis(I, "sum", p, 0)
    raise Unsupported("matmul")


def num_pow(I, x, y):
    dims = broadcast(x.dims, y.dims)
    y = to_plain(y)
    unit = x.unit
    if unit is not None:
        c = const(y.node)
        if unit.is_equivalent(u.dimensionless_unscaled):
            unit = DIMLESS if c is None or unit != DIMLESS else unit
        elif c is None:
            raise err("UnitTypeError", "quantity with a unit to a power that is not a number")
        if c is not None:
            unit = u.Unit(unit ** c.limit_denominator(1000))
    if const(x.node) == 0 and const(y.node) is not None and const(y.node) < 0 and not x.arr:
        raise err("ZeroDivisionError")
    dt = "i" if x.dt == "i" and y.dt == "i" else "f"
    if dt == "i" and x.arr and const(y.node) is not None and const(y.node) < 0:
        raise err("ValueError", "Integers to negative integer powers are not allowed")
    return Num(power(x.node, y.node), unit, dims, dt, arr=x.arr or y.arr)


def unary(I, op, v):
    if isinstance(op, ast.USub):
        if isinstance(v, int) and not isinstance(v, bool):
            return -v
        v = as_num(I, v)
        return fresh(v, node=mul2(MINUS1, v.node))
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, bool):
            return ~v
        v = as_num(I, v)
        if v.dt == "b":
            return fresh(v, node=canon(al.not_(v.node)))
    raise Unsupported("unary operator")


# ---------------------------------------------------------------- compare
def isboolish(v):
    return isinstance(v, bool) or isinstance(v, Num) and v.dt == "b"


def asbool(I, v):
    if isinstance(v, Num):
        return v
    t = I.truth(v)
    return Num(lift(t), None, (), "b")


def boolnum(node, dims, arr):
    c = const(node)
    if c is not None and not dims:
        return bool(c)
    return Num(node, None, dims, "b", arr=bool(dims))


def _distinct_consts(x, y):
    """different physical constants"""
    ids = lambda e: len(e.m) == 1 and e.m[0][0] in CONST_SYMS and e.c == 1 and e.m[0][1] == 1
    return ids(x) and ids(y) and x != y


def compare(I, op, a, b):
    if isinstance(a, PhiVal):
        a = I.simplify_phi(a)
    if isinstance(b, PhiVal):
        b = I.simplify_phi(b)
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identical(I, a, b)
        if isinstance(r, E):
            return Num(r if isinstance(op, ast.Is) else canon(al.not_(r)), None, (), "b")
        return r if isinstance(op, ast.Is) else not r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a)
        if isinstance(r, bool):
            return r if isinstance(op, ast.In) else not r
        return Num(r if isinstance(op, ast.In) else canon(al.not_(r)), None, (), "b")
    if isinstance(a, PhiVal):
        return I.boolify(PhiVal(a.c, compare(I, op, a.a, b), compare(I, op, a.b, b)))
    if isinstance(b, PhiVal):
        return I.boolify(PhiVal(b.c, compare(I, op, a, b.a), compare(I, op, a, b.b)))
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = equals(I, a, b)
        if isinstance(r, bool):
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, ast.Eq):
            return r
        return r.replace(node=canon(al.not_(r.node)))
    if isinstance(a, int) and isinstance(b, int):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if isinstance(a, u.UnitBase) or isinstance(b, u.UnitBase):
        raise Unsupported("ordering of units")
    x, y = as_num(I, a), as_num(I, b)
    _join_units(x, y, "comparison")
    y = align(x, y)
    dims = broadcast(x.dims, y.dims)
    tol = rounding_tolerance(I, op, x, y)
    if tol is not None:
        return boolnum(ONE if tol else ZERO, dims, x.arr or y.arr)
    if isinstance(op, ast.Lt):
        n = al.not_(al.ge0(sub(x.node, y.node)))
    elif isinstance(op, ast.LtE):
        n = al.ge0(sub(y.node, x.node))
    elif isinstance(op, ast.Gt):
        n = al.not_(al.ge0(sub(y.node, x.node)))
    else:
        n = al.ge0(sub(x.node, y.node))
    return boolnum(canon(n), dims, x.arr or y.arr)


TOL = F(1, 10 ** 9)


def rounding_tolerance(I, op, x, y):
    """comparison of something with a positive literal below 1e-9: a guard against rounding errors, decided
    as for generic inputs (not within that distance)"""
    if not I.generic:
        return None
    cx, cy = const(x.node), const(y.node)
    if cy is not None and 0 < cy <= TOL and cx is None and y.unit is None:
        return isinstance(op, (ast.Gt, ast.GtE))
    if cx is not None and 0 < cx <= TOL and cy is None and x.unit is None:
        return isinstance(op, (ast.Lt, ast.LtE))
    return None


def identical(I, a, b):
    if isinstance(a, PhiVal):
        x, y = identical(I, a.a, b), identical(I, a.b, b)
        if x is y:
            return x
        return canon(al.where(a.c, lift(x), lift(y)))
    if isinstance(b, PhiVal):
        return identical(I, b, a)
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Num) and isinstance(b, Num):
        if a.flags[:1] == ("const",) and a.flags == b.flags:
            return True
        if a.alias and a.alias == b.alias and a.unit == b.unit and a.k == b.k:
            return True
        if not a.arr and not b.arr:
            return I.truth(compare(I, ast.Eq(), a, b)) is True
        return False
    if isinstance(a, (int, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, (Obj, ListV, DictV)) and type(a) is type(b):
        return a.loc == b.loc
    if isinstance(a, u.UnitBase) and isinstance(b, u.UnitBase):
        return a is b
    return False


def equals(I, a, b):
    if a is b and not isinstance(a, Num):
        return True
    if isinstance(a, u.UnitBase) or isinstance(b, u.UnitBase):
        x = u.Unit(a) if isinstance(a, str) else a
        y = u.Unit(b) if isinstance(b, str) else b
        if isinstance(x, u.UnitBase) and isinstance(y, u.UnitBase):
            return bool(x == y)
        return False
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
        return Num(al.ind("opaque_eq", repr(a), repr(b)), None, (), "b")
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return type(a) == type(b) and a == b
    if isinstance(a, (Ext, ClassV, FuncV, UserFunc, ModuleV)) or isinstance(b, (Ext, ClassV, FuncV, UserFunc, ModuleV)):
        return a is b
    if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)) and type(a) == type(b):
        x, y = list(I.iterate(a)), list(I.iterate(b))
        if len(x) != len(y):
            return False
        acc = ONE
        for p, q in zip(x, y):
            t = I.truth(equals(I, p, q))
            acc = mul2(acc, lift(t))
        acc = canon(acc)
        return boolnum(acc, (), False)
    if isinstance(a, (DictV, SetV)) and isinstance(b, (DictV, SetV)):
        x, y = I.hget(a.loc), I.hget(b.loc)
        if isinstance(a, SetV):
            return set(map(lambda k: dkey(I, k), x)) == set(map(lambda k: dkey(I, k), y))
        if set(x) != set(y):
            return False
        acc = ONE
        for k in x:
            acc = mul2(acc, lift(I.truth(equals(I, x[k], y[k]))))
        return boolnum(canon(acc), (), False)
    if isinstance(a, Obj) or isinstance(b, Obj):
        for o, other in ((a, b), (b, a)):
            if isinstance(o, Obj):
                f, _ = o.cls.lookup("__eq__")
                if f is not None:
                    return I.call(I.bind(f, o), [other], {})
                if o.cls.kind in ("dataclass", "namedtuple") and isinstance(other, Obj) and other.cls is o.cls:
                    x, y = I.hget(o.loc), I.hget(other.loc)
                    acc = ONE
                    for k in x:
                        acc = mul2(acc, lift(I.truth(equals(I, x[k], y.get(k)))))
                    return boolnum(canon(acc), (), False)
        return isinstance(a, Obj) and isinstance(b, Obj) and a.loc == b.loc
    if isinstance(a, (ExtObj,)) and isinstance(b, ExtObj) and a.kind == b.kind == "physical_type":
        return a.data["t"] == b.data["t"]
    if isinstance(a, ExtObj) and a.kind == "physical_type":
        return a.data["t"] == b
    if not (_numlike(a) and _numlike(b)):
        return a == b if type(a) == type(b) else False
    x, y = as_num(I, a), as_num(I, b)
    if _distinct_consts(x.node, y.node) or x.unit is not None and y.unit is not None and not x.unit.is_equivalent(y.unit):
        return False
    if (x.unit is None) != (y.unit is None):
        q, p = (x, y) if x.unit is not None else (y, x)
        if not q.unit.is_equivalent(u.dimensionless_unscaled) and const(p.node) != 0:
            return False
    try:
        y = align(x, y)
        dims = broadcast(x.dims, y.dims)
    except AbsRaise:
        return False
    return boolnum(canon(al.eq0(sub(x.node, y.node))), dims, x.arr or y.arr)


def _numlike(a):
    return isinstance(a, (Num, int, ListV, tuple, SymList))


def contains(I, seq, x):
    if isinstance(seq, str) and isinstance(x, str):
        return x in seq
    if isinstance(seq, DictV):
        p = I.hget(seq.loc)
        return dkey(I, x) in p
    if isinstance(seq, PhiVal):
        return canon(al.where(seq.c, lift(contains(I, seq.a, x)), lift(contains(I, seq.b, x))))
    acc = ZERO
    for y in I.iterate(seq):
        if I.truth(compare(I, ast.Is(), x, y)) is True:
            return True
        t = I.truth(equals(I, x, y))
        if t is True:
            return True
        if t is not False:
            acc = canon(sub(add(acc, t), mul2(acc, t)))
    c = const(acc)
    return bool(c) if c is not None else acc


def num_truth(I, v):
    if v.dims and any(d != 1 for d in v.dims):
        n = v.node
        k = I.known(n) if v.dt == "b" else None
        if k is None:
            d = v.dims[0]
            if dim_size(d) == 0:
                return False
            raise err("ValueError", "The truth value of an array with more than one element is ambiguous")
        return k
    c = const(v.node)
    if c is not None:
        return c != 0
    if v.dt == "b":
        k = I.known(v.node)
        return canon(v.node) if k is None else k
    r = canon(al.not_(al.eq0(v.node)))
    k = I.known(r)
    return r if k is None else k


# ----------------------------------------------------- attributes of numbers
@numattr("unit")
def _(I, n):
    if n.unit is None:
        raise err("AttributeError", "ndarray has no attribute unit")
    return n.unit


@numattr("value")
def _(I, n):
    if n.unit is None:
        raise err("AttributeError", "ndarray has no attribute value")
    return value_of(n)


def value_of(n, view=True):
    s = inv(unit_scale(n.unit))
    if n.dims and view:
        return n.replace(node=mul2(n.node, s), unit=None, k=mul2(n.k, s))
    return Num(mul2(n.node, s), None, n.dims, n.dt, arr=bool(n.dims))


@numattr("shape")
def _(I, n):
    return tuple(size_num(d) for d in n.dims)


@numattr("size")
def _(I, n):
    nt = [d for d in n.dims if d != 1]
    if len(nt) == 0:
        return 1
    if len(nt) == 1:
        return size_num(nt[0])
    return Num(al.mul(*[as_num(I, size_num(d)).node for d in nt]), None, (), "i")


@numattr("ndim")
def _(I, n):
    return len(n.dims)


@numattr("T")
def _(I, n):
    return n.replace(dims=n.dims[::-1])


@numattr("dtype")
def _(I, n):
    return ExtObj("dtype", dt=n.dt)


@numattr("real")
def _(I, n):
    return n


@numattr("cgs")
def _(I, n):
    if n.flags == ("const", "e_SI"):
        raise err("TypeError", "charge without a unit system")
    return fresh(n, unit=u.Unit((n.unit.cgs / n.unit.cgs.scale)) if n.unit is not None else None)


@numattr("si")
def _(I, n):
    return fresh(n, unit=u.Unit((n.unit.si / n.unit.si.scale)))


@numattr("gauss")
def _(I, n):
    if n.flags == ("const", "e_SI"):
        return E_GAUSS
    raise err("AttributeError", "gauss")


@numattr("esu")
def _(I, n):
    if n.flags == ("const", "e_SI"):
        return E_ESU
    raise err("AttributeError", "esu")


@numattr("isscalar")
def _(I, n):
    return not n.dims


@numattr("flags", "flat", "base")
def _(I, n):
    return Opaque("array attribute")


@nummeth("to")
def _(I, n, args, kwargs):
    unit, eq = _args(["unit", "equivalencies", "copy"], args, kwargs, equivalencies=None, copy=None)[:2]
    return convert(I, n, parse_unit(I, unit), eq)


@nummeth("to_value")
def _(I, n, args, kwargs):
    unit, eq = _args(["unit", "equivalencies"], args, kwargs, unit=None, equivalencies=None)
    if unit is None:
        return value_of(n)
    tgt = parse_unit(I, unit)
    r = convert(I, n, tgt, eq)
    if n.unit == tgt:
        return value_of(n)
    return value_of(r, view=False)


@nummeth("decompose")
def _(I, n, args, kwargs):
    d = n.unit.decompose()
    return fresh(n, unit=u.Unit(d / d.scale))


def _args(names, args, kwargs, **defaults):
    out = []
    if len(args) > len(names):
        raise err("TypeError", "too many arguments")
    for i, nm in enumerate(names):
        if i < len(args):
            if nm in kwargs:
                raise err("TypeError", f"multiple values for argument {nm}")
            out.append(args[i])
        elif nm in kwargs:
            out.append(kwargs[nm])
        elif nm in defaults:
            out.append(defaults[nm])
        else:
            raise err("TypeError", f"missing argument {nm}")
    for k in kwargs:
        if k not in names:
            raise err("TypeError", f"unexpected keyword argument {k}")
    return out


def parse_unit(I, x):
    if isinstance(x, PhiVal):
        x = I.simplify_phi(x)
    if isinstance(x, u.UnitBase):
        return x
    if isinstance(x, str):
        try:
            return u.Unit(x)
        except Exception as e:
            raise err("ValueError", f"unit {x!r}")
    if isinstance(x, Num):
        c = const(x.node)
        if x.unit is not None and not x.dims:
            r = mul2(x.node, inv(unit_scale(x.unit)))
            cc = const(r)
            if cc is not None:
                return u.Unit(float(cc) * x.unit)
            raise Unsupported("unit from a quantity")
        if c is not None:
            return u.Unit(float(c))
    if x is None:
        raise err("TypeError", "None is not a unit")
    raise Unsupported(f"unit {x!r}")


def convert(I, n, unit, eqs=None):
    if n.unit is None:
        raise err("AttributeError", "ndarray has no attribute to")
    if n.unit.is_equivalent(unit):
        return fresh(n, unit=unit, arr=True)
    eqlist = list(I.iterate(eqs)) if eqs is not None and not isinstance(eqs, ExtObj) else ([eqs] if eqs is not None else [])
    for eq in eqlist:
        if isinstance(eq, ExtObj) and eq.kind == "equivalency":
            r = eq.data["f"](I, n, unit)
            if r is not None:
                return r
            continue
        tup = list(I.iterate(eq))
        if len(tup) == 2:
            tup = [tup[0], tup[1], None, None]
        if len(tup) == 3:
            tup = [tup[0], tup[1], tup[2], tup[2]]
        a, b, f, g = tup
        a, b = parse_unit(I, a), parse_unit(I, b)
        for x, y, fun in ((a, b, f), (b, a, g)):
            if n.unit.is_equivalent(x) and unit.is_equivalent(y):
                arg = Num(mul2(n.node, inv(unit_scale(x))), None, n.dims, "f", arr=bool(n.dims))
                r = arg if fun is None else as_num(I, I.call(fun, [arg], {}))
                v = mul2(r.node, inv(unit_scale(r.unit)))
                return Num(mul2(v, unit_scale(y)), unit, r.dims, "f")
    raise err("UnitConversionError", f"{n.unit} and {unit} are not convertible")


def _spectral(I, n, unit):
    """frequency, energy, wavelength, wavenumber"""
    kinds = [(u.Hz, lambda x: x, lambda x: x),
             (u.erg, lambda x: x / cval("h"), lambda x: x * cval("h")),
             (u.cm, lambda x: cval("c") / x, lambda x: cval("c") / x),
             (u.cm ** -1, lambda x: cval("c") * x, lambda x: x / cval("c"))]
    for a, tof, _ in kinds:
        if n.unit.is_equivalent(a):
            for b, _, fromf in kinds:
                if unit.is_equivalent(b):
                    return Num(fromf(tof(n.node)), unit, n.dims, "f")
    return None


def _mass_energy(I, n, unit):
    c2 = mul2(cval("c"), cval("c"))
    for a, b in ((u.g, u.erg), (u.g / u.cm ** 3, u.erg / u.cm ** 3), (u.g / u.s, u.erg / u.s), (u.g / u.cm ** 2, u.erg / u.cm ** 2)):
        if n.unit.is_equivalent(a) and unit.is_equivalent(b):
            return Num(mul2(n.node, c2), unit, n.dims, "f")
        if n.unit.is_equivalent(b) and unit.is_equivalent(a):
            return Num(mul2(n.node, inv(c2)), unit, n.dims, "f")
    return None


def _temperature_energy(I, n, unit):
    k = cval("k_B")
    if n.unit.is_equivalent(u.K) and unit.is_equivalent(u.erg):
        return Num(mul2(n.node, k), unit, n.dims, "f")
    if n.unit.is_equivalent(u.erg) and unit.is_equivalent(u.K):
        return Num(mul2(n.node, inv(k)), unit, n.dims, "f")
    return None


def _dimless_angles(I, n, unit):
    if n.unit.is_equivalent(u.rad) and unit.is_equivalent(DIMLESS) or n.unit.is_equivalent(DIMLESS) and unit.is_equivalent(u.rad):
        return fresh(n, unit=unit)
    return None


for _n, _f in (("spectral", _spectral), ("mass_energy", _mass_energy), ("temperature_energy", _temperature_energy),
               ("dimensionless_angles", _dimless_angles)):
    def _mk(f):
        return lambda I, a, k: ExtObj("equivalency", f=f)
    EXT["astropy.units." + _n] = _mk(_f)
    EXT["astropy.units.equivalencies." + _n] = _mk(_f)

UNITMETH = {
    "to": lambda I, o, a, k: _unit_to(I, o, a, k),
    "is_equivalent": lambda I, o, a, k: any(o.is_equivalent(parse_unit(I, x)) for x in (I.iterate(a[0]) if isinstance(a[0], tuple) else [a[0]])),
    "decompose": lambda I, o, a, k: o.decompose(),
    "to_string": lambda I, o, a, k: Opaque("string"),
}


def _unit_to(I, o, a, k):
    other, value, eq = _args(["other", "value", "equivalencies"], a, k, value=1, equivalencies=None)
    v = as_num(I, value)
    q = Num(mul2(v.node, unit_scale(o)), o, v.dims, "f")
    return value_of(convert(I, q, parse_unit(I, other), eq))


@ext("astropy.units.Unit")
def _(I, args, kwargs):
    return parse_unit(I, args[0])


@ext("astropy.units.Quantity", "astropy.units.quantity.Quantity")
def _(I, args, kwargs):
    value, unit, dtype, copy = _args(["value", "unit", "dtype", "copy"], args, kwargs, unit=None, dtype=None, copy=True)
    if isinstance(value, str):
        q = u.Quantity(value)
        return Num(mul2(E(al.num(float(q.value))), unit_scale(q.unit)), q.unit)
    n = as_num(I, value)
    if unit is None:
        r = fresh(n, unit=n.unit if n.unit is not None else DIMLESS, arr=True)
    else:
        un = parse_unit(I, unit)
        if n.unit is None:
            r = Num(mul2(n.node, unit_scale(un)), un, n.dims, "f")
        else:
            r = convert(I, n, un)
    return r.replace(dt="f")


@nummeth("copy")
def _(I, n, args, kwargs):
    return fresh(n)


@nummeth("astype")
def _(I, n, args, kwargs):
    dt = dtype_of(I, args[0] if args else kwargs.get("dtype"))
    return cast(n, dt)


def cast(n, dt):
    if dt == "i" and n.dt == "f":
        return fresh(n, node=al.fn("trunc", n.node), dt="i")
    if dt is None:
        return fresh(n)
    return fresh(n, dt=dt)


def dtype_of(I, x):
    if x is None:
        return None
    if isinstance(x, ExtObj) and x.kind == "dtype":
        return x.data["dt"]
    if isinstance(x, Ext):
        nm = x.name.split(".")[-1]
        if "float" in nm or "double" in nm or nm == "longdouble":
            return "f"
        if "int" in nm:
            return "i"
        if "bool" in nm:
            return "b"
        return "f"
    if isinstance(x, str):
        return {"f": "f", "d": "f", "i": "i", "b": "b"}.get(x[0], "f")
    if isinstance(x, PhiVal):
        return "f"
    return None


@nummeth("item", "tolist", "__float__")
def _(I, n, args, kwargs):
    if not n.dims or all(d == 1 for d in n.dims):
        return Num(n.node, None, (), n.dt) if n.unit is None else value_of(n, view=False).replace(dims=())
    raise Unsupported("tolist of an array")


@nummeth("__getitem__")
def _(I, n, args, kwargs):
    return getitem(I, n, args[0])


@nummeth("__len__")
def _(I, n, args, kwargs):
    return size_num(n.dims[0])


@nummeth("view", "squeeze_")
def _(I, n, args, kwargs):
    return n


# ------------------------------------------------------------- reshaping
def mismatch(src, known):
    """the lengths are all known and cannot agree: an exception; otherwise not decided"""
    a = [dim_size(d) for d in src]
    b = [k[1] if isinstance(k, tuple) and k[0] == "size" else k if isinstance(k, int) else dim_size(k) for k in known]
    if None not in a and None not in b:
        x, y = 1, 1
        for v in a:
            x *= v
        for v in b:
            y *= v if v != -1 else 1
        if x != y if -1 not in b else not y or x % y:
            raise err("ValueError", "cannot reshape")
    raise Unsupported("reshape")


def reshape(I, n, shape, order=None):
    if not isinstance(shape, tuple):
        shape = tuple(I.iterate(shape)) if isinstance(shape, ListV) else (shape,)
    if order not in (None, "C"):
        if order != "F":
            raise Unsupported("order of the elements")
        # the transposed array in the order of C
        r = reshape(I, n.replace(dims=n.dims[::-1]), shape[::-1])
        return r.replace(dims=r.dims[::-1])
    src = []
    for d in n.dims:
        src += list(d[1]) if isinstance(d, tuple) and d[0] == "flat" and len(shape) > 1 else [d] if d != 1 else []
    out = []
    known = []
    for s in shape:
        if isinstance(s, PhiVal):
            s = I.simplify_phi(s)
        if isinstance(s, int) and s == 1 and not isinstance(s, bool):
            known.append(1)
        elif isinstance(s, int) and s == -1:
            known.append(-1)
        elif isinstance(s, Num) and s.flags[:1] == ("size",):
            known.append(s.flags[1])
        elif as_int(s) is not None:
            k = as_int(s)
            if k == 1:
                known.append(1)
            elif k == -1:
                known.append(-1)
            else:
                known.append(("size", k))
        else:
            raise Unsupported("reshape to an unknown shape")
    used = [k for k in known if k not in (1, -1)]
    rest = list(src)
    # match in order
    it = 0
    for k in known:
        if k == 1:
            out.append(1)
        elif k == -1:
            out.append(-1)
        else:
            if it < len(src) and (src[it] == k or isinstance(k, tuple) and k[0] == "size" and dim_size(src[it]) == k[1]
                                  or dim_size(src[it]) is not None and dim_size(src[it]) == dim_size(k)):
                out.append(src[it])
                it += 1
            else:
                mismatch(src, known)
            continue
        if k == -1:
            remaining = len(src) - it - sum(1 for x in known[len(out):] if x not in (1, -1))
            if remaining == 0:
                out[-1] = 1
            elif remaining == 1:
                out[-1] = src[it]
                it += 1
            else:
                ds = tuple(src[it:it + remaining])
                it += remaining
                out[-1] = ("flat", ds)
    if it != len(src):
        mismatch(src, known)
    return n.replace(dims=tuple(out))


@nummeth("reshape")
def _(I, n, args, kwargs):
    shape = args[0] if len(args) == 1 else tuple(args)
    return reshape(I, n, shape, kwargs.get("order"))


@ext("numpy.reshape")
def _(I, args, kwargs):
    a = [x for x in args]
    n = as_num(I, a[0])
    shape = a[1] if len(a) > 1 else kwargs.get("shape", kwargs.get("newshape"))
    return reshape(I, n, shape, a[2] if len(a) > 2 else kwargs.get("order"))


@nummeth("flatten", "ravel")
def _(I, n, args, kwargs):
    nt = [d for d in n.dims if d != 1]
    if len(nt) <= 1:
        return n.replace(dims=tuple(nt) if nt else (1,))
    return n.replace(dims=(("flat", tuple(nt)),))


@ext("numpy.ravel")
def _(I, args, kwargs):
    return NUMMETH["ravel"](I, as_num(I, args[0]), [], {})


@nummeth("squeeze")
def _(I, n, args, kwargs):
    ax = kwargs.get("axis", args[0] if args else None)
    if ax is None:
        d = tuple(x for x in n.dims if x != 1)
    else:
        k = as_int(ax)
        if n.dims[k] != 1:
            raise err("ValueError", "squeeze")
        d = list(n.dims)
        del d[k]
    return n.replace(dims=tuple(d))


@ext("numpy.squeeze")
def _(I, args, kwargs):
    return NUMMETH["squeeze"](I, as_num(I, args[0]), args[1:], kwargs)


@ext("numpy.expand_dims")
def _(I, args, kwargs):
    a, ax = _args(["a", "axis"], args, kwargs)
    n = as_num(I, a)
    axes = [as_int(x) for x in (I.iterate(ax) if isinstance(ax, (tuple, ListV)) else [ax])]
    nd = len(n.dims) + len(axes)
    axes = {x % nd for x in axes}
    it = iter(n.dims)
    return n.replace(dims=tuple(1 if i in axes else next(it) for i in range(nd)))


@nummeth("transpose")
def _(I, n, args, kwargs):
    axes = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListV)) else (tuple(args) or kwargs.get("axes"))
    if not axes:
        return n.replace(dims=n.dims[::-1])
    ax = [as_int(x) for x in I.iterate(axes)]
    return n.replace(dims=tuple(n.dims[i] for i in ax))


@ext("numpy.transpose")
def _(I, args, kwargs):
    return NUMMETH["transpose"](I, as_num(I, args[0]), args[1:], kwargs)


@ext("numpy.moveaxis", "numpy.swapaxes")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    i, j = as_int(args[1]), as_int(args[2])
    d = list(n.dims)
    d[i], d[j] = d[j], d[i]
    if len(d) > 2:
        raise Unsupported("moveaxis")
    return n.replace(dims=tuple(d))


@ext("numpy.broadcast_to")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    shape = args[1]
    dims = tuple(shape_dims(I, shape))
    return n.replace(dims=broadcast(n.dims, dims))


@ext("numpy.broadcast_arrays")
def _(I, args, kwargs):
    ns = [as_num(I, a) for a in args]
    d = ()
    for n in ns:
        d = broadcast(d, n.dims)
    return I.new_list([n.replace(dims=d) for n in ns])


@ext("numpy.atleast_1d")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    return n if n.dims else n.replace(dims=(1,), arr=True, alias=None)


@ext("numpy.meshgrid")
def _(I, args, kwargs):
    ns = [as_num(I, a) for a in args]
    ij = kwargs.get("indexing", "xy") == "ij"
    n = len(ns)
    pos = list(range(n))
    if not ij and n >= 2:
        pos[0], pos[1] = 1, 0
    full = [None] * n
    for i, x in enumerate(ns):
        full[pos[i]] = x.dims[0] if x.dims else 1
    return I.new_list([fresh(x, dims=tuple(full)) for x in ns])


def shape_dims(I, shape):
    out = []
    items = I.iterate(shape) if isinstance(shape, (tuple, ListV)) else [shape]
    for s in items:
        if isinstance(s, Num) and s.flags[:1] == ("size",):
            out.append(s.flags[1])
        elif as_int(s) is not None:
            k = as_int(s)
            out.append(1 if k == 1 else ("n", k, "shape"))
        else:
            out.append(("sz", as_num(I, s).node))
    return out


# ------------------------------------------------------------ ufuncs
def ufunc1(name, f, unitmode="dimless"):
    def h(I, args, kwargs):
        x = as_num(I, args[0])
        if "out" in kwargs or "where" in kwargs:
            raise Unsupported(f"numpy.{name} with out= or where=")
        if unitmode == "dimless":
            had = x.unit is not None
            if had and not x.unit.is_equivalent(DIMLESS):
                raise err("UnitTypeError", f"{name} of a quantity with unit {x.unit}")
            return Num(f(x.node), DIMLESS if had else None, x.dims, "f", arr=x.arr)
        if unitmode == "trig":
            had = x.unit is not None
            if had and not (x.unit.is_equivalent(u.rad) ):
                raise err("UnitTypeError", f"{name} of a quantity with unit {x.unit}")
            return Num(f(x.node), DIMLESS if had else None, x.dims, "f", arr=x.arr)
        if unitmode == "invtrig":
            had = x.unit is not None
            if had and not x.unit.is_equivalent(DIMLESS):
                raise err("UnitTypeError", f"{name} of a quantity with unit {x.unit}")
            return Num(f(x.node), u.rad if had else None, x.dims, "f", arr=x.arr)
        if unitmode == "keep":
            return Num(f(x.node), x.unit, x.dims, x.dt, arr=x.arr)
    for m in ("numpy.", "math."):
        EXT[m + name] = h
    return h


ufunc1("exp", al.exp)
ufunc1("log", al.ln)
ufunc1("log10", al.log10)
ufunc1("log2", lambda x: mul2(al.ln(x), inv(al.ln(lift(2)))))
ufunc1("log1p", lambda x: al.ln(add(ONE, x)))
ufunc1("expm1", lambda x: sub(al.exp(x), ONE))
ufunc1("exp2", lambda x: power(lift(2), x))
ufunc1("sin", lambda x: al.fn("sin", x), "trig")
ufunc1("cos", lambda x: al.fn("cos", x), "trig")
ufunc1("tan", lambda x: mul2(al.fn("sin", x), inv(al.fn("cos", x))), "trig")
ufunc1("arccos", lambda x: al.fn("arccos", x), "invtrig")
ufunc1("arcsin", lambda x: al.fn("arcsin", x), "invtrig")
ufunc1("arctan", lambda x: al.fn("arctan", x), "invtrig")
ufunc1("acos", lambda x: al.fn("arccos", x), "invtrig")
ufunc1("asin", lambda x: al.fn("arcsin", x), "invtrig")
ufunc1("atan", lambda x: al.fn("arctan", x), "invtrig")
ufunc1("sinh", lambda x: mul2(sub(al.exp(x), al.exp(mul2(MINUS1, x))), lift(F(1, 2))))
ufunc1("cosh", lambda x: mul2(add(al.exp(x), al.exp(mul2(MINUS1, x))), lift(F(1, 2))))
ufunc1("tanh", lambda x: al.fn("tanh", x))
ufunc1("abs", al.absval, "keep")
ufunc1("absolute", al.absval, "keep")
ufunc1("fabs", al.absval, "keep")
ufunc1("sign", lambda x: al.fn("sign", x), "keep")
ufunc1("negative", lambda x: mul2(MINUS1, x), "keep")
ufunc1("positive", lambda x: x, "keep")
ufunc1("floor", lambda x: al.fn("floor", x), "keep")
ufunc1("ceil", lambda x: al.fn("ceil", x), "keep")
ufunc1("rint", lambda x: al.fn("rint", x), "keep")
ufunc1("round", lambda x: al.fn("rint", x), "keep")
ufunc1("trunc", lambda x: al.fn("trunc", x), "keep")
ufunc1("nan_to_num", lambda x: x, "keep")
ufunc1("deg2rad", lambda x: mul(x, PI, lift(F(1, 180))))
ufunc1("rad2deg", lambda x: mul(x, inv(PI), lift(180)))
ufunc1("radians", lambda x: mul(x, PI, lift(F(1, 180))))
ufunc1("degrees", lambda x: mul(x, inv(PI), lift(180)))


@ext("numpy.sign")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    return Num(al.fn("sign", x.node), None, x.dims, "f", arr=x.arr)


@ext("numpy.sqrt", "math.sqrt")
def _(I, args, kwargs):
    return num_pow(I, as_num(I, args[0]), Num(lift(F(1, 2))))


@ext("numpy.cbrt")
def _(I, args, kwargs):
    return num_pow(I, as_num(I, args[0]), Num(lift(F(1, 3))))


@ext("numpy.square")
def _(I, args, kwargs):
    return num_pow(I, as_num(I, args[0]), scalar(2))


@ext("numpy.reciprocal")
def _(I, args, kwargs):
    return num_binop(I, ast.Div(), scalar(1), as_num(I, args[0]))


@ext("numpy.power", "numpy.float_power", "math.pow", "builtins.pow")
def _(I, args, kwargs):
    return binop(I, ast.Pow(), args[0], args[1])


def _mkbin(name, op):
    @ext("numpy." + name)
    def h(I, args, kwargs):
        r = binop(I, op, as_num(I, args[0]), as_num(I, args[1]))
        out = kwargs.get("out")
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            I.write(out, r, "out=")
            return I.cur(out)
        return r


for _n, _o in (("multiply", ast.Mult()), ("divide", ast.Div()), ("true_divide", ast.Div()), ("add", ast.Add()),
               ("subtract", ast.Sub()), ("mod", ast.Mod()), ("remainder", ast.Mod()), ("floor_divide", ast.FloorDiv()),
               ("matmul", ast.MatMult()), ("dot", ast.MatMult())):
    _mkbin(_n, _o)


def _mkcmp(name, op):
    @ext("numpy." + name)
    def h(I, args, kwargs):
        return compare(I, op, args[0], args[1])


for _n, _o in (("less", ast.Lt()), ("less_equal", ast.LtE()), ("greater", ast.Gt()), ("greater_equal", ast.GtE()),
               ("equal", ast.Eq()), ("not_equal", ast.NotEq())):
    _mkcmp(_n, _o)


@ext("numpy.logical_and", "numpy.bitwise_and")
def _(I, args, kwargs):
    x, y = _bools(I, args[0]), _bools(I, args[1])
    return num_binop(I, ast.BitAnd(), x, y)


@ext("numpy.logical_or", "numpy.bitwise_or")
def _(I, args, kwargs):
    x, y = _bools(I, args[0]), _bools(I, args[1])
    return num_binop(I, ast.BitOr(), x, y)


@ext("numpy.logical_not", "numpy.invert", "numpy.bitwise_not")
def _(I, args, kwargs):
    x = _bools(I, args[0])
    return fresh(x, node=canon(al.not_(x.node)))


def _bools(I, a):
    n = as_num(I, a)
    if n.dt == "b":
        return n
    return Num(canon(al.not_(al.eq0(n.node))), None, n.dims, "b", arr=n.arr)


@ext("numpy.arctan2", "math.atan2")
def _(I, args, kwargs):
    x, y = as_num(I, args[0]), as_num(I, args[1])
    un = _join_units(x, y, "arctan2")
    s = inv(unit_scale(un))
    return Num(al.fn("arctan2", mul2(x.node, s), mul2(y.node, s)), u.rad if un is not None else None,
               broadcast(x.dims, y.dims), "f", arr=x.arr or y.arr)


@ext("numpy.hypot", "math.hypot")
def _(I, args, kwargs):
    x, y = as_num(I, args[0]), as_num(I, args[1])
    return num_pow(I, num_binop(I, ast.Add(), num_pow(I, x, scalar(2)), num_pow(I, y, scalar(2))), Num(lift(F(1, 2))))


def minmax(I, kind, x, y):
    un = _join_units(x, y, kind)
    y = align(x, y)
    d = broadcast(x.dims, y.dims)
    return Num(extreme(kind, x.node, y.node), un, d, _dt(x, y), arr=x.arr or y.arr)


def extreme(kind, x, y):
    """the larger or the smaller of two values"""
    x, y = canon(x), canon(y)
    top, bot = (al.INF, mul2(MINUS1, al.INF)) if kind == "max" else (mul2(MINUS1, al.INF), al.INF)
    if x == y or x == top or y == bot:
        return x
    if y == top or x == bot:
        return y
    if al.NARY:
        return al.nary(kind, [x, y])
    if (y.m, y.c) < (x.m, x.c):
        x, y = y, x
    d = sub(x, y) if kind == "max" else sub(y, x)
    return al.where(al.ge0(d), x, y)


@ext("numpy.maximum", "numpy.fmax")
def _(I, args, kwargs):
    return minmax(I, "max", as_num(I, args[0]), as_num(I, args[1]))


@ext("numpy.minimum", "numpy.fmin")
def _(I, args, kwargs):
    return minmax(I, "min", as_num(I, args[0]), as_num(I, args[1]))


@ext("numpy.clip")
def _(I, args, kwargs):
    a, lo, hi = _args(["a", "a_min", "a_max"], args, kwargs, a_min=None, a_max=None)
    return clip(I, as_num(I, a), lo, hi)


@nummeth("clip")
def _(I, n, args, kwargs):
    lo, hi = _args(["min", "max"], args, kwargs, min=None, max=None)
    return clip(I, n, lo, hi)


def clip(I, n, lo, hi):
    if lo is not None:
        lo = as_num(I, lo)
        if I.generic and lo.node == TINY.node:
            # smallest positive float: only protects the logarithm of zero
            pass
        else:
            n = minmax(I, "max", n, lo)
    if hi is not None:
        hi = as_num(I, hi)
        if not (I.generic and hi.node == HUGE.node):
            n = minmax(I, "min", n, hi)
    return fresh(n)


TINY = Num(sym("float_tiny", True))
HUGE = Num(sym("float_max", True))
EPS = Num(sym("float_eps", True))
EXT["numpy.finfo"] = lambda I, a, k: ExtObj("finfo", tiny=TINY, max=HUGE, eps=EPS, smallest_normal=TINY, min=unary(I, ast.USub(), HUGE))


@ext("numpy.where")
def _(I, args, kwargs):
    if len(args) == 1:
        return nonzero(_bools(I, args[0]))
    c = _bools(I, args[0])
    x, y = as_num(I, args[1]), as_num(I, args[2])
    un = _join_units(x, y, "where")
    x = align(c, x)
    y = align(x if len(x.dims) >= len(c.dims) else c, y)
    d = broadcast(c.dims, broadcast(x.dims, y.dims))
    return Num(gate(I, c.node, x.node, y.node), un, d, _dt(x, y), arr=True)


def gate(I, c, a, b):
    """where(c, a, b); a grid of which some points are shifted is kept as one atom on demand"""
    r = al.where(c, a, b)
    if I.opaque_shifts and al.deps(c) and a.c and b.c and not al.deps(al.sub(a, b)):
        return al.opaque(r)
    return r


@ext("numpy.sort")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    ax = kwargs.get("axis", args[1] if len(args) > 1 else -1)
    if ax is None or any(k in kwargs for k in ("order", "kind")):
        raise Unsupported("numpy.sort with these arguments")
    if not x.dims:
        raise AbsRaise(ExcV("AxisError", "sort of a scalar"))
    d = x.dims[as_int(ax)]
    if isinstance(d, tuple) and d[0] == "mask":
        raise Unsupported("order of a selection")
    return x.replace(node=al.take(x.node, d, d, al.order(d, x.node)), alias=None, arr=True)


@nummeth("nonzero")
def _(I, n, args, kwargs):
    return nonzero(_bools(I, n))


@nummeth("argsort")
def _(I, n, args, kwargs):
    return EXT["numpy.argsort"](I, [n] + list(args), kwargs)


def nonzero(c):
    """positions at which the condition holds"""
    if len(c.dims) != 1:
        raise Unsupported("positions of the true elements of an array with several axes")
    d = c.dims[0]
    at = known_ints(c)
    if at is not None and (not all(at) or d == 1 or isinstance(d, tuple) and d[0] == "n"):
        return (from_items([i for i, x in enumerate(at) if x]),)
    w = canon(c.node)
    return (Num(idx_node(d), None, (d if w == ONE else ("mask", d, w),), "i", flags=("nonzero", c)),)


@ext("numpy.nonzero")
def _(I, args, kwargs):
    return nonzero(_bools(I, args[0]))


@ext("numpy.flatnonzero")
def _(I, args, kwargs):
    return nonzero(_bools(I, args[0]))[0]


@ext("numpy.setdiff1d")
def _(I, args, kwargs):
    x, y = as_num(I, args[0]), as_num(I, args[1])
    if x.flags[:1] == ("idx",) and x.dims == x.flags[1:2]:
        d = x.flags[1]
        if y.flags[:1] == ("nonzero",) and y.flags[1].dims == (d,):
            return nonzero(y.flags[1].replace(node=al.not_(y.flags[1].node)))[0]
        if y.flags[:1] == ("idx",) and y.flags[1] == d:
            return nonzero(Num(ZERO, None, (d,), "b"))[0]
    xs, ys = positions(x), positions(y)
    if xs is not None and ys is not None:
        r = [i for i in xs if i not in ys]
        return from_items(sorted(set(r)) if not kwargs.get("assume_unique") else r)
    raise Unsupported("numpy.setdiff1d")


def positions(n):
    """known integers, also those of a running index"""
    if n.flags[:1] == ("idx",) and n.dims == n.flags[1:2]:
        s = dim_size(n.dims[0])
        return list(range(s)) if s is not None and s <= 32 else None
    if n.flags[:1] == ("nonzero",):
        return None
    return known_ints(n)


@ext("numpy.isin", "numpy.in1d")
def _(I, args, kwargs):
    x, y = as_num(I, args[0]), as_num(I, args[1])
    xs, ys = positions(x), positions(y)
    if xs is None or ys is None or kwargs or len(args) > 2:
        raise Unsupported("numpy.isin")
    return from_items([int(i in ys) for i in xs], dt="b")


@ext("numpy.split", "numpy.array_split")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    cuts = args[1]
    xs = listed(x)
    cs = None if isinstance(cuts, int) or xs is None else positions(as_num(I, cuts))
    if cs is None or len(args) > 2 or kwargs:
        raise Unsupported("numpy.split")
    b = [0] + cs + [len(xs)]
    return I.new_list([from_items(xs[i:j], x.unit, x.dt) for i, j in zip(b, b[1:])])


@ext("numpy.argsort")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    if len(args) > 1 or kwargs or len(x.dims) != 1:
        raise Unsupported("numpy.argsort with these arguments")
    d = x.dims[0]
    if d == 1:
        return Num(ZERO, None, (1,), "i")
    if isinstance(d, tuple) and d[0] == "mask":
        raise Unsupported("order of a selection")
    xs = listed(x, 12)
    if xs is not None:
        # known order (of elements which compare equal, the first is taken first)
        k = known_order(xs)
        if k is not None:
            return from_items(k)
    return Num(al.order(d, x.node), None, (d,), "i", arr=True)


def known_order(xs):
    le = {}
    for i in range(len(xs)):
        for j in range(i):
            c = al.ge0(sub(xs[i], xs[j]))
            if c not in (ONE, ZERO):
                return None
            le[j, i] = c == ONE
    return sorted(range(len(xs)), key=lambda i: sum(le[j, i] if j < i else not le[i, j] for j in range(len(xs)) if j != i))


@ext("numpy.select", "numpy.piecewise")
def _(I, args, kwargs):
    conds, vals = list(I.iterate(args[0])), list(I.iterate(args[1]))
    r = as_num(I, args[2] if len(args) > 2 else kwargs.get("default", 0))
    for c, v in reversed(list(zip(conds, vals))):
        r = EXT["numpy.where"](I, [c, v, r], {})
    return r


@ext("numpy.isclose", "astropy.units.isclose")
def _(I, args, kwargs):
    a, b, rtol, atol, en = _args(["a", "b", "rtol", "atol", "equal_nan"], args, kwargs,
                                 rtol=scalar(1e-5), atol=None, equal_nan=False)
    x, y = as_num(I, a), as_num(I, b)
    un = _join_units(x, y, "isclose")
    y = align(x, y)
    d = broadcast(x.dims, y.dims)
    rt = as_num(I, rtol)
    if atol is None:
        at = mul2(E(F(1, 10 ** 8)), unit_scale(un))
    else:
        aq = as_num(I, atol)
        at = mul2(aq.node, unit_scale(un)) if aq.unit is None else aq.node
    cx, cy = const(x.node), const(y.node)
    if sub(x.node, y.node) == ZERO or al.equal(x.node, y.node):
        return boolnum(ONE, d, bool(d))
    # |x - y| <= atol + rtol * |y|
    diff_ = sub(add(at, mul2(rt.node, al.absval(y.node))), al.absval(sub(x.node, y.node)))
    return boolnum(al.ge0(diff_), d, bool(d))


@ext("numpy.allclose", "astropy.units.allclose")
def _(I, args, kwargs):
    r = EXT["numpy.isclose"](I, args, kwargs)
    return EXT["numpy.all"](I, [r], {})


@ext("numpy.isfinite")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    return boolnum(ONE, x.dims, x.arr)


@ext("numpy.isnan", "numpy.isinf")
def _(I, args, kwargs):
    x = as_num(I, args[0])
    if x.node == al.NAN or x.node == al.INF:
        return boolnum(ONE, x.dims, x.arr)
    return boolnum(ZERO, x.dims, x.arr)


@ext("numpy.isscalar")
def _(I, args, kwargs):
    x = args[0]
    if isinstance(x, Num):
        return not x.dims and x.unit is None
    return isinstance(x, (int, str))


@ext("numpy.array_equal")
def _(I, args, kwargs):
    r = equals(I, as_num(I, args[0]), as_num(I, args[1]))
    return r if isinstance(r, bool) else EXT["numpy.all"](I, [r], {})


@ext("numpy.heaviside")
def _(I, args, kwargs):
    x, h0 = to_plain(as_num(I, args[0])), as_num(I, args[1])
    g = al.ge0(x.node)
    l = al.ge0(mul2(MINUS1, x.node))
    zero = mul2(g, l)
    n = add(sub(g, zero), mul2(h0.node, zero))
    return Num(n, None, broadcast(x.dims, h0.dims), "f", arr=x.arr)


# ------------------------------------------------------------- creation
@ext("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy", "astropy.units.Quantity.copy")
def _array(I, args, kwargs, copy=True):
    x = args[0]
    if isinstance(x, Num):
        n = x
        dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype"))
        r = cast(n, dt)
        subok = kwargs.get("subok")
        if n.unit is not None and subok is not True:
            # np.array(quantity) drops the unit
            r = value_of(r, view=False)
            r = r.replace(alias=None, arr=True)
        return r.replace(arr=True, alias=None)
    n = as_num(I, x)
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype"))
    r = cast(n, dt)
    if n.unit is not None:
        r = value_of(r, view=False)
    return r.replace(arr=True, alias=None)


@ext("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray")
def _(I, args, kwargs):
    x = args[0]
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype"))
    if isinstance(x, Num) and (dt is None or dt == x.dt):
        if x.unit is not None:
            return value_of(x) if x.dims else value_of(x).replace(arr=True)
        if x.arr:
            return x
        return x.replace(arr=True, alias=None)
    return _array(I, args, kwargs)


def _full(I, dims, val, unit=None, dt="f"):
    return Num(val, unit, dims, dt, arr=True)


@ext("numpy.zeros", "numpy.empty")
def _(I, args, kwargs):
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype")) or "f"
    return _full(I, tuple(shape_dims(I, args[0] if args else kwargs["shape"])), ZERO, None, dt)


@ext("numpy.ones")
def _(I, args, kwargs):
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype")) or "f"
    return _full(I, tuple(shape_dims(I, args[0] if args else kwargs["shape"])), ONE, None, dt)


@ext("numpy.full")
def _(I, args, kwargs):
    shape, val, dtype = _args(["shape", "fill_value", "dtype"], args, kwargs, dtype=None)
    v = as_num(I, val)
    return _full(I, tuple(shape_dims(I, shape)), v.node, v.unit, dtype_of(I, dtype) or v.dt)


@ext("numpy.repeat")
def _(I, args, kwargs):
    a, n, axis = _args(["a", "repeats", "axis"], args, kwargs, axis=None)
    v = as_num(I, a)
    if v.dims:
        raise Unsupported("numpy.repeat of an array")
    return _full(I, tuple(shape_dims(I, n)), v.node, v.unit, v.dt)


def _like(I, args, kwargs, val):
    n = as_num(I, args[0])
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype")) or n.dt
    dims = n.dims
    if kwargs.get("shape") is not None:
        dims = tuple(shape_dims(I, kwargs["shape"]))
    v = val
    if n.unit is not None:
        v = mul2(val, unit_scale(n.unit))
    return _full(I, dims, v, n.unit, dt)


@ext("numpy.zeros_like", "numpy.empty_like")
def _(I, args, kwargs):
    return _like(I, args, kwargs, ZERO)


@ext("numpy.ones_like")
def _(I, args, kwargs):
    return _like(I, args, kwargs, ONE)


@ext("numpy.full_like")
def _(I, args, kwargs):
    a, val = args[0] if args else kwargs["a"], args[1] if len(args) > 1 else kwargs["fill_value"]
    n, v = as_num(I, a), as_num(I, val)
    dt = dtype_of(I, kwargs.get("dtype")) or n.dt
    if dt == "i" and v.dt == "f":
        I.event("truncate", how="full_like")
    if n.unit is not None and v.unit is None:
        return _full(I, n.dims, mul2(v.node, unit_scale(n.unit)), n.unit, dt)
    return _full(I, n.dims, v.node, v.unit, dt)


def grid(I, start, stop, num_, kind, endpoint=True, node_fn=None):
    a, b = start, stop
    nn = as_int(num_)
    if nn is None:
        k = as_num(I, num_)
        nn = canon(k.node)
    dim = ("lin", nn if isinstance(nn, E) else int(nn), canon(a), canon(b), kind)
    t = al.tvar(dim)
    if endpoint is False:
        t = mul(t, sub(lift(nn), ONE), inv(lift(nn)))
    return dim, add(a, mul2(sub(b, a), t))


@ext("numpy.linspace")
def _(I, args, kwargs):
    a, b, n, endpoint, retstep = _args(["start", "stop", "num", "endpoint", "retstep"], args, kwargs, num=50, endpoint=True, retstep=False)
    x, y = as_num(I, a), as_num(I, b)
    un = _join_units(x, y, "linspace")
    if x.dims or y.dims:
        if endpoint is not True or kwargs.get("axis", 0) != 0:
            raise Unsupported("linspace between arrays")
        nn = as_int(n)
        dim = ("lin", nn if nn is not None else canon(as_num(I, n).node), canon(x.node), canon(y.node), "linarr")
        return Num(add(x.node, mul2(sub(y.node, x.node), al.tvar(dim))), un, (dim,) + broadcast(x.dims, y.dims), "f")
    dim, node = grid(I, x.node, y.node, n, "lin", endpoint)
    return Num(node, un, (dim,), "f")


@ext("numpy.logspace")
def _(I, args, kwargs):
    a, b, n, endpoint, base = _args(["start", "stop", "num", "endpoint", "base"], args, kwargs, num=50, endpoint=True, base=10)
    x, y = to_plain(as_num(I, a)), to_plain(as_num(I, b))
    bs = as_num(I, base)
    if x.dims or y.dims:
        return _grid_arr(I, x, y, n, bs)
    _, e0 = grid(I, x.node, y.node, n, "log", endpoint)
    dim = ("lin", as_int(n) if as_int(n) is not None else canon(as_num(I, n).node), canon(power(bs.node, x.node)), canon(power(bs.node, y.node)), "log")
    t = al.tvar(dim)
    if endpoint is False:
        nn = lift(dim[1])
        t = mul(t, sub(nn, ONE), inv(nn))
    e0 = add(x.node, mul2(sub(y.node, x.node), t))
    return Num(power(bs.node, e0), None, (dim,), "f")


def _grid_arr(I, x, y, n, bs):
    """logspace between arrays of limits: the new axis comes first"""
    nn = as_int(n)
    dim = ("lin", nn if nn is not None else canon(as_num(I, n).node), canon(x.node), canon(y.node), "logarr")
    t = al.tvar(dim)
    d = broadcast(x.dims, y.dims)
    return Num(power(bs.node, add(x.node, mul2(sub(y.node, x.node), t))), None, (dim,) + d, "f")


@ext("numpy.geomspace")
def _(I, args, kwargs):
    a, b, n, endpoint = _args(["start", "stop", "num", "endpoint"], args, kwargs, num=50, endpoint=True)
    x, y = as_num(I, a), as_num(I, b)
    un = _join_units(x, y, "geomspace")
    s = inv(unit_scale(un))
    r = EXT["numpy.logspace"](I, [Num(al.log10(mul2(x.node, s))), Num(al.log10(mul2(y.node, s))), n], {"endpoint": endpoint})
    return r.replace(node=mul2(r.node, unit_scale(un)), unit=un)


@ext("numpy.arange")
def _(I, args, kwargs):
    ints = [as_int(a) for a in args]
    if all(i is not None for i in ints) and len(ints) in (1, 2, 3):
        r = range(*ints)
        return stack(I, tuple(r)) if len(r) else Num(ZERO, None, (("n", 0, ()),), "i")
    if len(args) == 1 and isinstance(args[0], Num) and args[0].flags[:1] == ("size",):
        d = args[0].flags[1]
        return Num(idx_node(d), None, (d,), "i", flags=("idx", d))
    ns = [as_num(I, a) for a in args]
    dim = ("arange",) + tuple(canon(n.node) for n in ns)
    return Num(al.sym(("arange", dim), False, [dim]), ns[0].unit, (dim,), "f")


def idx_node(dim):
    return al.sym(("idx", dim), False, [dim])


# ------------------------------------------------------------ reductions
def dim_key(d):
    return d


def masked(node, d):
    """value and weight of a selection"""
    return node


def reduce_axis(I, kind, n, axis):
    nd = len(n.dims)
    axis = axis % nd if nd else 0
    if nd == 0:
        return fresh(n)
    d = n.dims[axis]
    dims = n.dims[:axis] + n.dims[axis + 1:]
    if d == 1:
        node = n.node
        if kind in ("argmax", "argmin"):
            return Num(ZERO, None, dims, "i")
        return Num(node, n.unit, dims, n.dt, arr=bool(dims) or n.unit is not None)
    node = n.node
    base, w = unmask(d)
    if kind in ("sum", "mean"):
        if kind == "mean" and w is not None:
            s = al.integral("sum", mul2(w, node), None, base)
            c = al.integral("sum", w, None, base)
            r = mul2(s, inv(c))
        elif kind == "mean":
            r = _axis_sum("mean", node, base)
        else:
            r = _axis_sum("sum", mul2(w, node) if w is not None else node, base)
        dt = "f" if kind == "mean" or n.dt == "f" else "i"
        return Num(r, n.unit, dims, dt, arr=bool(dims) or n.unit is not None)
    key = d
    if isinstance(base, tuple) and base[0] == "flat":
        raise Unsupported("reduction of a flattened array")
    if w is not None:
        if kind in ("max", "min", "first", "last", "argmax", "argmin"):
            r = al.reduce_(kind, node, base) if False else _masked_red(kind, node, base, w)
        elif kind == "any":
            r = al.reduce_("any", canon(mul2(w, node)), base)
        else:
            r = al.reduce_("all", canon(sub(ONE, mul2(w, sub(ONE, node)))), base)
    else:
        r = al.reduce_(kind, node, base)
        if isinstance(base, tuple) and base[0] == "n" and base[1] <= 12 and kind in ("max", "min", "any", "all"):
            items = [al.at_index(node, base, ("i", i)) for i in range(base[1])]
            r = items[0]
            for x in items[1:]:
                if kind in ("max", "min"):
                    r = extreme(kind, r, x)
                elif kind == "any":
                    r = canon(sub(add(r, x), mul2(r, x)))
                else:
                    r = canon(mul2(r, x))
    if kind in ("argmax", "argmin"):
        return Num(r, None, dims, "i", flags=("argidx", d))
    dt = "b" if kind in ("any", "all") else n.dt
    un = None if kind in ("any", "all") else n.unit
    c = const(r)
    if kind in ("any", "all") and not dims and c is not None:
        return bool(c)
    return Num(r, un, dims, dt, arr=bool(dims) or un is not None)


def _masked_red(kind, node, base, w):
    f = canon(node)
    at = al._intern("red", ("masked_" + kind, base, f, canon(w)), al._is_pos(f), (al.deps(f) | al.deps(w)) - {base})
    return al.atom_expr(at)


def _axis_sum(kind, node, base):
    if isinstance(base, tuple) and base[0] == "flat":
        for b in base[1]:
            node = al.integral(kind, node, None, b)
        return node
    if not (base in al.deps(node)):
        if kind == "mean":
            return node
        return mul2(node, lift_len(base))
    return al.integral(kind, node, None, base)


def lift_len(base):
    n = dim_size(base)
    return E(F(n)) if n is not None else lift(dim_len(base))


def unmask(d):
    """(underlying axis, selection weight or None)"""
    w = None
    while isinstance(d, tuple) and d[0] == "mask":
        w = d[2] if w is None else mul2(w, d[2])
        d = d[1]
    return d, w


def _axes(n, axis):
    if axis is None:
        return list(range(len(n.dims)))
    if isinstance(axis, (tuple,)):
        return [as_int(a) % len(n.dims) for a in axis]
    k = as_int(axis)
    if k is None:
        raise Unsupported("unknown axis")
    if not -len(n.dims) <= k < max(len(n.dims), 1):
        raise err("AxisError" if "AxisError" in EXCEPTIONS else "ValueError", "axis out of bounds")
    return [k % max(len(n.dims), 1)]


def mkred(kind, names):
    def red(I, n, axis=None, keepdims=False):
        if kind in ("any", "all"):
            n = _bools(I, n)
        if not n.dims:
            return n if kind not in ("argmax", "argmin") else 0
        ax = _axes(n, axis)
        if kind in ("argmax", "argmin") and len(ax) > 1:
            raise Unsupported("argmax of a multidimensional array")
        full = n.dims
        for a in sorted(ax, reverse=True):
            if isinstance(n, bool):
                break
            n = reduce_axis(I, kind, n, a)
        if keepdims is True:
            n = n.replace(dims=tuple(1 if i in ax else d for i, d in enumerate(full)))
        return n

    def f(I, args, kwargs):
        a = args[0]
        axis = args[1] if len(args) > 1 else kwargs.get("axis")
        for k in kwargs:
            if k not in ("axis", "keepdims", "dtype"):
                raise Unsupported(f"{names[0]}({k}=)")
        return red(I, as_num(I, a), axis, kwargs.get("keepdims", False))

    def m(I, n, args, kwargs):
        axis = args[0] if args else kwargs.get("axis")
        return red(I, n, axis, kwargs.get("keepdims", False))

    for nm in names:
        EXT["numpy." + nm] = f
        NUMMETH[nm] = m


mkred("sum", ["sum", "nansum"])
mkred("mean", ["mean", "nanmean"])
mkred("max", ["max", "amax", "nanmax"])
mkred("min", ["min", "amin", "nanmin"])
mkred("any", ["any"])
mkred("all", ["all"])
mkred("argmax", ["argmax", "nanargmax"])
mkred("argmin", ["argmin", "nanargmin"])
EXT["numpy.add.reduce"] = EXT["numpy.sum"]


@ext("numpy.prod")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    if len(n.dims) == 1 and isinstance(n.dims[0], tuple) and n.dims[0][0] == "n":
        return Num(mul(*[al.at_index(n.node, n.dims[0], ("i", i)) for i in range(n.dims[0][1])]), n.unit)
    raise Unsupported("prod")


@ext("numpy.average")
def _(I, args, kwargs):
    a, axis, weights = _args(["a", "axis", "weights"], args, kwargs, axis=None, weights=None)
    n = as_num(I, a)
    if weights is None:
        return EXT["numpy.mean"](I, [n, axis], {})
    w = as_num(I, weights)
    s = EXT["numpy.sum"](I, [num_binop(I, ast.Mult(), n, w), axis], {})
    return num_binop(I, ast.Div(), s, EXT["numpy.sum"](I, [w, axis], {}))


# ------------------------------------------------------------- quadrature
def integrate(I, kind, args, kwargs, default_axis=-1):
    y, x, dx, axis = _args(["y", "x", "dx", "axis"], args, kwargs, x=None, dx=1, axis=default_axis)
    y = as_num(I, y)
    nd = len(y.dims)
    k = as_int(axis)
    if nd == 0:
        raise err("ValueError", "integration of a scalar")
    if k is None or not -nd <= k < nd:
        raise err("ValueError", "axis out of bounds")
    k %= nd
    d = y.dims[k]
    dims = y.dims[:k] + y.dims[k + 1:]
    if x is None:
        dxn = as_num(I, dx)
        if d == 1:
            return Num(ZERO, y.unit, dims)
        r = al.integral(kind, y.node, None, d)
        un = _mul_units(y.unit, dxn.unit)
        return Num(mul2(r, dxn.node), un, dims, arr=bool(dims) or un is not None)
    x = as_num(I, x)
    if len(x.dims) == 1:
        xd = x.dims[0]
    elif len(x.dims) == nd:
        xd = x.dims[k]
        if any(e != 1 for i, e in enumerate(x.dims) if i != k):
            # points that depend on the other axes as well
            broadcast(x.dims, y.dims)
    elif len(x.dims) < nd:
        bx = (1,) * (nd - len(x.dims)) + x.dims
        xd = bx[k]
    else:
        raise err("ValueError", "integration points with too many dimensions")
    if xd == 1:
        raise err("GridMismatch", "integration points with a single value along the integration axis")
    if d != xd:
        I.event("grid_mismatch", ydim=d, xdim=xd)
        raise err("GridMismatch", f"integrand sampled along {al.showdim(d)} and points along {al.showdim(xd)}")
    if len(x.dims) > 1:
        dims = broadcast(y.dims, (1,) * (nd - len(x.dims)) + x.dims)
        dims = dims[:k] + dims[k + 1:]
    base, w = unmask(d)
    un = _mul_units(y.unit, x.unit)
    if w is not None:
        f = canon(y.node)
        r = al._intern("red", ("masked_" + kind, base, f, canon(w), canon(x.node)), False,
                       (al.deps(f) | al.deps(w) | al.deps(x.node)) - {base})
        return Num(al.atom_expr(r), un, dims, arr=bool(dims) or un is not None)
    r = al.integral(kind, y.node, x.node, base)
    return Num(r, un, dims, arr=bool(dims) or un is not None)


def _mul_units(a, b):
    if a is None and b is None:
        return None
    return u.Unit((a or DIMLESS) * (b or DIMLESS))


EXT["numpy.trapz"] = EXT["numpy.trapezoid"] = EXT["scipy.integrate.trapezoid"] = lambda I, a, k: integrate(I, "trapz", a, k)
EXT["scipy.integrate.simpson"] = EXT["scipy.integrate.simps"] = lambda I, a, k: integrate(I, "simpson", a, k)


def loglog_intrinsic(I, f, args, kwargs):
    return integrate(I, "loglog", args, kwargs, default_axis=0)


# --------------------------------------------------------------- indexing
def norm_key(I, key):
    if isinstance(key, PhiVal):
        key = I.simplify_phi(key)
    return key if isinstance(key, tuple) else (key,)


def listed(n, limit=32):
    """the elements of an array along one axis of known length"""
    d = n.dims[0] if len(n.dims) == 1 else None
    if d == 1:
        return [canon(n.node)]
    if not (isinstance(d, tuple) and d[0] == "n" and d[1] <= limit):
        return None
    return [canon(al.at_index(n.node, d, ("i", i))) for i in range(d[1])]


def known_ints(n):
    """the elements of an array of known integers (or truth values)"""
    xs = listed(n)
    if xs is None:
        return None
    cs = [const(x) for x in xs]
    return [int(c) for c in cs] if all(c is not None and c.denominator == 1 for c in cs) else None


def from_items(items, unit=None, dt="i"):
    """array of the given elements"""
    items = tuple(canon(x) if isinstance(x, E) else E(F(x)) for x in items)
    if not items:
        return Num(ZERO, unit, (("n", 0, ()),), dt, arr=True)
    if len(items) == 1:
        return Num(items[0], unit, (1,), dt, arr=True)
    d = ("n", len(items), items)
    return Num(al.vec(d, items), unit, (d,), dt, arr=True)


def known_positions(k, d):
    """the positions along a known axis which a known index array names"""
    size = dim_size(d)
    if not isinstance(k, Num) or len(k.dims) != 1 or size is None or k.dt == "f" or not (d == 1 or isinstance(d, tuple) and d[0] == "n"):
        return None
    if k.flags[:1] in (("idx",), ("nonzero",), ("argidx",)):
        return None
    v = known_ints(k)
    if v is None:
        return None
    if k.dt == "b":
        if len(v) != size:
            raise err("IndexError", "boolean index did not match")
        return [i for i, x in enumerate(v) if x]
    if any(not -size <= i < size for i in v):
        raise err("IndexError", "index out of bounds")
    return [i % size for i in v]


def full_slice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step in (None, 1)


def is_mask(k):
    return isinstance(k, Num) and k.dt == "b" and len(k.dims) >= 1


def getitem(I, o, key):
    if isinstance(o, PhiVal):
        o = I.simplify_phi(o)
        if isinstance(o, PhiVal):
            return I.cond_eval(o.c, lambda: getitem(I, o.a, key), lambda: getitem(I, o.b, key))
    if isinstance(o, DictV):
        p = I.hget(o.loc)
        if isinstance(key, PhiVal):
            key = I.simplify_phi(key)
        if isinstance(key, PhiVal):
            return I.cond_eval(key.c, lambda: getitem(I, o, key.a), lambda: getitem(I, o, key.b))
        k = dkey(I, key)
        if k in p:
            v = p[k]
            if isinstance(v, PhiVal):
                v = I.simplify_phi(v)
                from .interp import UNDEF
                if isinstance(v, PhiVal) and (v.a is UNDEF or v.b is UNDEF):
                    good = v.b if v.a is UNDEF else v.a
                    I.raises.append((I.st.pc, ExcV("KeyError", str(k)), I.st.fork(), I.src))
                    return good
            return I.cur(v) if isinstance(v, Num) else v
        raise err("KeyError", str(key))
    if isinstance(o, (ListV, tuple, str, range)):
        if isinstance(o, ListV):
            p = I.hget(o.loc)
            if type(p).__name__ == "SymListP":
                return getitem(I, as_num(I, o), key)
            if not isinstance(p, list):
                raise Unsupported("element of a list of unknown content")
        else:
            p = o
        if isinstance(key, slice):
            sl = slice(*[as_int(x) if x is not None else None for x in (key.start, key.stop, key.step)])
            if any(x is not None and as_int(x) is None for x in (key.start, key.stop, key.step)):
                raise Unsupported("slice of a list with unknown limits")
            r = p[sl]
            return I.new_list(r) if isinstance(o, ListV) else r
        k = as_int(key)
        if k is None:
            if isinstance(key, Num) and key.dt == "b" and not key.dims:
                t = I.truth(key)
                return I.cond_eval(t, lambda: p[1], lambda: p[0])
            if isinstance(key, Num) and isinstance(o, (ListV, tuple)):
                return getitem(I, as_num(I, o), key)
            raise err("TypeError", "list index")
        try:
            v = p[k]
        except IndexError:
            raise err("IndexError", "list index out of range")
        return I.cur(v) if isinstance(v, Num) else v
    if isinstance(o, Num):
        return num_getitem(I, o, norm_key(I, key), key)
    if isinstance(o, SymList):
        return getitem(I, as_num(I, o), key)
    if isinstance(o, Obj):
        if o.cls.kind == "namedtuple":
            return getitem(I, tuple(I.iterate(o)), key)
        f, _ = o.cls.lookup("__getitem__")
        if f is not None:
            return I.call(I.bind(f, o), [key], {})
    if isinstance(o, Ext):
        return Ext(o.name + "[]") if not o.name.endswith("[]") else o
    if isinstance(o, ExtObj):
        h = OBJMETH.get((o.kind, "__getitem__"))
        if h is not None:
            return h(I, o, [key], {})
    if isinstance(o, Opaque):
        return Opaque(o.what + "[]")
    if isinstance(o, ClassV):
        return o
    if o is None:
        raise err("TypeError", "NoneType is not subscriptable")
    if isinstance(o, Obj) and not o.cls.ext_bases():
        raise err("TypeError", f"'{o.cls.name}' object is not subscriptable")
    raise Unsupported(f"subscript of {o!r}")


def _expand_key(n, key):
    """align the elements of the key with the axes"""
    nk = sum(1 for k in key if k is not None and k is not Ellipsis)
    nk += sum(len(k.dims) - 1 for k in key if is_mask(k))
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (len(n.dims) - nk)
        else:
            out.append(k)
    if not any(k is Ellipsis for k in key):
        out += [slice(None)] * (len(n.dims) - nk)
    if nk > len(n.dims):
        raise err("IndexError", "too many indices for array")
    return out


def scalar_mask(n, key):
    if not n.dims and len(key) == 1 and isinstance(key[0], bool):
        return ONE if key[0] else ZERO
    if n.dims or len(key) != 1 or not isinstance(key[0], Num) or key[0].dims or key[0].dt != "b":
        return None
    return canon(key[0].node)


def num_getitem(I, n, key, orig):
    c_ = scalar_mask(n, key)
    if c_ is not None:
        # one element of numpy: selected or not
        return Num(ZERO, n.unit, (("n", 0, ()),), n.dt) if c_ == ZERO else Num(n.node, n.unit, (1 if c_ == ONE else ("mask", 1, c_),), n.dt)
    if not n.dims and not (key == (Ellipsis,) or key == ((),)):
        if n.arr and n.unit is not None:
            raise err("TypeError", "scalar quantity is not subscriptable")
        raise err("TypeError" if not n.arr else "IndexError", "scalar is not subscriptable")
    key = _expand_key(n, key)
    node, dims = n.node, []
    ax = 0
    advanced = False
    view = True
    for k in key:
        if isinstance(k, PhiVal):
            k = I.simplify_phi(k)
        if k is None:
            dims.append(1)
            continue
        if isinstance(k, Num) and len(k.dims) == 1 and ax < len(n.dims) and isinstance(n.dims[ax], tuple):
            at = known_positions(k, n.dims[ax])
            if at is not None:
                d = n.dims[ax]
                ax += 1
                if at == list(range(dim_size(d))):
                    dims.append(d)
                    view = False
                    continue
                items = tuple(canon(index_dim(node, d, i)) for i in at)
                # the axis is the same for all arrays of which the same elements are taken
                nd = ("n", len(items), ("of", d, tuple(at))) if len(items) != 1 else 1
                node = ZERO if not items else items[0] if len(items) == 1 else al.vec(nd, items)
                dims.append(nd if items else ("n", 0, ()))
                view = False
                continue
        if is_mask(k):
            for e in k.dims:
                d = n.dims[ax]
                if e != 1 and e != d and d != 1:
                    se, sd = dim_size(e), dim_size(d)
                    if se is None or sd is None:
                        raise Unsupported("boolean index over another axis")
                    if se != sd:
                        raise err("IndexError", "boolean index did not match")
                    if len(k.dims) > 1:
                        raise Unsupported("boolean index over other axes of the same length")
                    k = align(Num(ZERO, None, (d,), "b"), k)
                ax += 1
            if len(k.dims) == 1:
                d = n.dims[ax - 1]
                c_ = canon(k.node)
                dims.append(d if c_ == ONE else ("mask", d, c_))
            else:
                nt = tuple(d for d in n.dims[ax - len(k.dims):ax] if d != 1)
                dims.append(("mask", nt[0] if len(nt) == 1 else ("flat", nt), canon(k.node)))
            view = False
            continue
        d = n.dims[ax]
        ax += 1
        if full_slice(k):
            dims.append(d)
            continue
        if isinstance(k, slice):
            lo, hi, st = k.start, k.stop, k.step
            li, hi_, si = [as_int(x) if x is not None else None for x in (lo, hi, st)]
            if any(x is not None and as_int(x) is None for x in (lo, hi, st)):
                key_ = tuple(canon(as_num(I, x).node) if x is not None else None for x in (lo, hi, st))
            else:
                key_ = (li, hi_, si)
            if isinstance(d, tuple) and d[0] == "n" and all(x is None or isinstance(x, int) for x in key_):
                idxs = list(range(d[1]))[slice(*key_)]
                items = tuple(canon(al.at_index(node, d, ("i", i))) for i in idxs)
                nd = ("n", len(items), items)
                if not items:
                    node, nd = ZERO, ("n", 0, ())
                elif len(items) == 1:
                    node, nd = items[0], 1
                else:
                    node = al.vec(nd, items)
                dims.append(nd)
                continue
            if d == 1:
                if all(x is None or isinstance(x, int) for x in key_) and not range(1)[slice(*key_)]:
                    node = ZERO
                    dims.append(("n", 0, ()))
                else:
                    dims.append(1)
                continue
            ls = less_slice(d, key_)
            if ls is not None:
                nd, off = ls
                if nd != d:
                    node = al.at_index(node, d, ("dim", nd, "off", off))
                dims.append(nd)
                continue
            nd = ("sl", d) + key_
            node = al.at_index(node, d, ("dim", nd, "slice") + key_)
            dims.append(nd)
            continue
        i = as_int(k)
        if i is not None:
            if d == 1:
                if i not in (0, -1):
                    raise err("IndexError", "index out of bounds")
                continue
            s = dim_size(d)
            if s is not None and not -s <= i < s:
                raise err("IndexError", "index out of bounds")
            if s is not None and isinstance(d, tuple) and d[0] == "lin" and i == s - 1:
                i = -1
            if isinstance(d, tuple) and d[0] == "n" and i < 0:
                i += d[1]
            node = index_dim(node, d, i)
            continue
        k = as_num(I, k)
        if k.flags[:1] == ("idx",):
            if k.flags[1] == d:
                if k.dims:
                    dims.append(d)
                continue  # element at the running index: same node
        if k.flags[:1] == ("nonzero",) and k.flags[1].dims == (d,):
            dims.append(k.dims[0])
            view = False
            continue
        if k.flags[:1] == ("argidx",):
            node = al.at_index(node, d, ("i", k.node))
            continue
        # general integer index: element at a computed position
        if not k.dims:
            node = al.at_index(node, d, ("i", canon(k.node)))
            continue
        nd = k.dims
        if len(nd) == 1:
            if nd == (d,) and canon(k.node) == idx_node(d):
                dims.append(d)
                view = False
                continue
            if isinstance(d, tuple) and d[0] == "mask":
                m = nd[0][1] if isinstance(nd[0], tuple) and nd[0][0] == "n" else 0
                at = [const(al.at_index(k.node, nd[0], ("i", j))) for j in range(m)]
                if not m or None in at:
                    raise Unsupported("positions in a selection")
                items = tuple(canon(index_dim(node, d, int(j))) for j in at)
                newd = ("n", m, items)
                node = al.vec(newd, items)
                dims.append(newd)
                view = False
                continue
            at = known_ints(k) if isinstance(d, tuple) and d[0] == "n" else None
            if at and all(-d[1] <= j < d[1] for j in at):
                # known positions along a known axis
                items = tuple(canon(al.at_index(node, d, ("i", j % d[1]))) for j in at)
                if len(items) == 1:
                    node = items[0]
                    dims.append(1)
                else:
                    newd = nd[0] if isinstance(nd[0], tuple) and nd[0][0] == "n" else ("n", len(items), items)
                    node = al.vec(newd, items)
                    dims.append(newd)
                view = False
                continue
            node = al.take(node, d, unmask(nd[0])[0], canon(k.node))
            dims.append(nd[0])
            view = False
            continue
        raise Unsupported("fancy indexing")
    dims = tuple(dims)
    if not dims:
        return Num(node, n.unit, (), n.dt)
    if all(k is None or full_slice(k) for k in key):
        return n.replace(dims=dims)
    r = Num(node, n.unit, dims, n.dt)
    if view:
        r.viewof = (n, orig)
    return r


def less_slice(d, key):
    """(axis, offset) of a slice which drops a known number of points at the ends"""
    lo, hi, st = key
    if st not in (None, 1) or not (lo is None or isinstance(lo, int)) or not (hi is None or isinstance(hi, int)):
        return None
    lo, hi = lo or 0, hi or 0
    if lo < 0 or hi > 0 or key[1] == 0:
        return None
    if not (isinstance(d, str) or isinstance(d, tuple) and d[0] in ("lin", "less", "cat")):
        return None
    k = lo - hi
    if not k:
        return d, 0
    if isinstance(d, tuple) and d[0] == "less":
        return ("less", d[1], d[2] + k), lo
    return ("less", d, k), lo


def index_dim(node, d, i):
    b, w = unmask(d)
    if w is not None:
        f = canon(node)
        at = al._intern("red", ("masked_at%d" % i, b, f, canon(w)), al._is_pos(f), (al.deps(f) | al.deps(w)) - {b})
        return al.atom_expr(at)
    return al.at_index(node, d, ("i", i))


def setitem(I, o, key, val, how="item assignment"):
    if isinstance(o, PhiVal):
        o = I.simplify_phi(o)
    if isinstance(o, DictV):
        I.hset(o.loc, dkey(I, key), val)
        I.event("container_write", loc=o.loc)
        return
    if isinstance(o, ListV):
        p = I.hget(o.loc)
        k = as_int(key)
        if isinstance(p, list) and isinstance(key, slice):
            p = list(p)
            sl = slice(*[as_int(x) if x is not None else None for x in (key.start, key.stop, key.step)])
            p[sl] = list(I.iterate(val))
            I.st.heap[o.loc] = p
            I.event("container_write", loc=o.loc)
            return
        if not isinstance(p, list) or k is None:
            raise Unsupported("list item assignment")
        p = list(p)
        try:
            p[k] = val
        except IndexError:
            raise err("IndexError")
        I.st.heap[o.loc] = p
        I.event("container_write", loc=o.loc)
        return
    if isinstance(o, Obj):
        f, _ = o.cls.lookup("__setitem__")
        if f is not None:
            I.call(I.bind(f, o), [key, val], {})
            return
    if isinstance(o, Num):
        num_setitem(I, o, norm_key(I, key), val, how)
        return
    if isinstance(o, Opaque):
        return
    if isinstance(o, ExtObj):
        h = OBJMETH.get((o.kind, "__setitem__"))
        if h is not None:
            h(I, o, [key, val], {})
            return
    raise err("TypeError", f"item assignment on {o!r}")


def num_setitem(I, n, key, val, how):
    c_ = scalar_mask(n, key)
    if c_ is not None:
        v = as_num(I, val)
        if n.unit is None and v.unit is not None:
            v = to_plain(v)
        I.write(n, Num(gate(I, c_, v.node, n.node), n.unit, (), v.dt if v.dt == "f" else n.dt), how)
        return
    if not n.dims:
        if key in ((Ellipsis,), ((),)) :
            I.write(n, as_num(I, val), how)
            return
        raise err("TypeError", "item assignment on a scalar")
    v = as_num(I, val)
    if n.unit is None and v.unit is not None:
        if not v.unit.is_equivalent(DIMLESS):
            raise err("TypeError", "only dimensionless quantities can be put in a plain array")
        v = to_plain(v)
    elif n.unit is not None:
        if v.unit is None and const(v.node) != 0 and v.node not in (al.NAN, al.INF) and not n.unit.is_equivalent(DIMLESS):
            raise err("UnitConversionError", "number without unit put in a quantity array")
        if v.unit is not None and not v.unit.is_equivalent(n.unit):
            raise err("UnitConversionError", f"{v.unit} put in an array of {n.unit}")
    key = _expand_key(n, key)
    places, ax = [], 0
    for k in key:
        if k is not None and is_mask(k) and len(k.dims) == 1 and canon(k.node) == ONE:
            # all elements
            places.append(n.dims[ax])
            ax += 1
            continue
        if k is None or is_mask(k):
            places.append(1)
            ax += len(k.dims) if k is not None else 0
            continue
        if full_slice(k):
            places.append(n.dims[ax])
        elif isinstance(k, slice) or as_num(I, k).dims:
            places.append(1)
        ax += 1
    v = align(Num(ZERO, None, tuple(places) + n.dims[ax:]), v)
    cond = ONE
    ax = 0
    node = v.node
    for k in key:
        if k is None:
            continue
        if is_mask(k):
            if len(k.dims) == 1 and k.dims != n.dims[ax:ax + 1] and dim_size(k.dims[0]) is not None and dim_size(k.dims[0]) == dim_size(n.dims[ax]):
                k = align(Num(ZERO, None, n.dims[ax:ax + 1], "b"), k)
            ax += len(k.dims)
            cond = mul2(cond, k.node)
            continue
        d = n.dims[ax]
        ax += 1
        if full_slice(k):
            continue
        if isinstance(k, slice):
            ks = tuple(as_int(x) if x is not None else None for x in (k.start, k.stop, k.step))
            if any(x is not None and as_int(x) is None for x in (k.start, k.stop, k.step)):
                ks = tuple(canon(as_num(I, x).node) if x is not None else None for x in (k.start, k.stop, k.step))
            if all(x is None or isinstance(x, int) for x in ks) and (d == 1 or isinstance(d, tuple) and d[0] == "n"):
                size = dim_size(d)
                idxs = range(size)[slice(*ks)]
                if not len(idxs):
                    cond = ZERO
                    continue
                if d == 1 or len(idxs) == size:
                    continue
                if not any(isinstance(x, tuple) and x[0] == "n" for x in v.dims):
                    cond = mul2(cond, canon(add(*[al.isidx(d, i) for i in idxs])))
                    continue
            if d == 1:
                continue
            nd = ("sl", d) + ks
            at = al._intern("ind", ("inslice", d) + ks, True, frozenset([d]))
            cond = mul2(cond, al.atom_expr(at))
            ls = less_slice(d, ks)
            if ls is not None:
                if ls[0] == d:
                    continue
                if ls[0] in al.deps(node):
                    node = al.at_index(node, ls[0], ("dim", d, "off", -ls[1]))
            elif nd in al.deps(node):
                node = unslice(node, d, nd)
            continue
        i = as_int(k)
        if i is not None:
            if isinstance(d, tuple) and d[0] == "n" and -d[1] <= i < 0:
                i += d[1]
            if d != 1:
                cond = mul2(cond, al.isidx(d, i))
            continue
        k = as_num(I, k)
        if k.flags[:1] == ("idx",) and k.flags[1] == d:
            continue
        if k.flags[:1] == ("nonzero",) and k.flags[1].dims == (d,):
            cond = mul2(cond, k.flags[1].node)
            continue
        at = known_positions(k, d)
        if at is not None:
            if d != 1:
                cond = mul2(cond, canon(add(ZERO, *[al.isidx(d, i) for i in sorted(set(at))])) if at else ZERO)
            if len(v.dims) and v.dims[-1] != 1:
                xs = listed(v) if ax == len(n.dims) and len(v.dims) == 1 else None
                if xs is None or len(xs) != len(at):
                    raise Unsupported("item assignment with an index array")
                node = canon(add(ZERO, *[mul2(al.isidx(d, i), x) for i, x in dict(zip(at, xs)).items()]))
            continue
        if not k.dims:
            at = al._intern("ind", ("isidx", d, canon(k.node)), True, frozenset([d]) | al.deps(k.node))
            cond = mul2(cond, al.atom_expr(at))
            continue
        raise Unsupported("item assignment with an index array")
    new = gate(I, canon(cond), node, n.node)
    dt = v.dt
    I.write(n, Num(new, n.unit, n.dims, dt if dt == "f" else n.dt), how)


def unslice(node, d, nd):
    def f(a):
        if a.kind == "at" and a.args[1] == d and a.args[2][0] == "dim" and a.args[2][1] == nd:
            return al.atom_expr(al.ATOMS[a.args[0]])
        return None
    return al.map_atoms(node, f, {})


def delitem(I, o, key):
    if isinstance(o, DictV):
        p = dict(I.hget(o.loc))
        k = dkey(I, key)
        if k not in p:
            raise err("KeyError")
        del p[k]
        I.st.heap[o.loc] = p
        return
    if isinstance(o, ListV):
        p = list(I.hget(o.loc))
        del p[as_int(key) if not isinstance(key, slice) else slice(*[as_int(x) if x is not None else None for x in (key.start, key.stop, key.step)])]
        I.st.heap[o.loc] = p
        return
    raise Unsupported("del")


# ------------------------------------------------------- symbolic loops
def symbolic_iter(I, it):
    """axis over which a loop of unknown length runs, None for concrete iterables"""
    if isinstance(it, Num) and it.dims:
        d = it.dims[0]
        if d == 1 or isinstance(d, tuple) and d[0] == "n":
            return None
        return d
    if isinstance(it, SymList):
        return it.dim
    if isinstance(it, ListV):
        p = I.hget(it.loc)
        if type(p).__name__ == "SymListP":
            return p.dim
    if isinstance(it, ExtObj) and it.kind in ("symrange", "symzip"):
        return it.data["dim"]
    return None


def symbolic_elem(I, it, dim):
    if isinstance(it, Num):
        return Num(it.node, it.unit, it.dims[1:], it.dt)
    if isinstance(it, SymList):
        return it.val
    if isinstance(it, ListV):
        return I.hget(it.loc).val
    if it.kind == "symrange":
        return Num(idx_node(dim), None, (), "i", flags=("idx", dim))
    return tuple(symbolic_elem(I, x, dim) if symbolic_iter(I, x) is not None else x for x in it.data["parts"])


def symbolic_for(I, s, it, dim, env):
    """loop over an axis of unknown length: the body is analysed once for a generic index.

    Recognised effects: elementwise assignment, append to a list, sums."""
    from .interp import SymListP, Comp
    st0 = I.st.fork()
    # accumulators: replace the scalar variables assigned in the body with placeholders
    from .interp import assigned
    names = set()
    for b in s.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
    ph = {}
    for nm in names:
        v = env.lookup_local(nm)
        if isinstance(v, (int, Num)) and not isinstance(v, bool):
            v = as_num(I, v)
            v = I.cur(v)
            p = al.sym(("acc", s.lineno, nm), False)
            ph[nm] = (v, p)
            env.set(nm, v.replace(node=p, alias=None))
    lists0 = {k: p for k, p in I.st.heap.items() if isinstance(p, list)}
    I.assign(s.target, symbolic_elem(I, it, dim), env)
    comps = I.exec_block(s.body, env)
    if comps is not None:
        ks = {c.kind for c in comps}
        if ks - {"n", "c"}:
            raise Unsupported("break or return in a loop of unknown length", I.src)
        I.st = I.join_states([c.st for c in comps], st0.pc)
    for nm, (v, p) in ph.items():
        w = env.lookup_local(nm)
        if not isinstance(w, Num):
            w = as_num(I, w)
        w = I.cur(w)
        if w.node == p:
            env.set(nm, v)
            continue
        delta = sub(w.node, p)
        pid = p.m[0][0]
        if pid in al.all_atoms(delta):
            if pid not in al.all_atoms(w.node):
                env.set(nm, w.replace(node=al.at_index(w.node, dim, ("i", -1)) if dim in al.deps(w.node) else w.node))
                continue
            # running maximum / minimum
            raise Unsupported(f"recurrence on {nm} in a loop of unknown length", I.src)
        env.set(nm, w.replace(node=add(v.node, _axis_sum("sum", delta, dim)), alias=None))
    for k, p in list(I.st.heap.items()):
        if isinstance(p, list) and k in lists0 and p is not lists0[k]:
            old = lists0[k]
            if len(p) == len(old) + 1 and all(a is b for a, b in zip(old, p)) and not old:
                I.st.heap[k] = SymListP(dim, p[-1])
            else:
                raise Unsupported("list built in a loop of unknown length", I.src)
    # names that keep the value of the last iteration
    for nm in names:
        w = env.lookup_local(nm)
        if nm not in ph and isinstance(w, Num) and dim in al.deps(w.node):
            env.set(nm, w.replace(node=index_dim(w.node, dim, -1)) if True else w)
    return None


# --------------------------------------------------------------- builtins
def B(name):
    return ext("builtins." + name)


@B("len")
def _(I, args, kwargs):
    x = args[0]
    if isinstance(x, PhiVal):
        x = I.simplify_phi(x)
    if isinstance(x, Num):
        if not x.dims:
            raise err("TypeError", "object of type float has no len()")
        return size_num(x.dims[0])
    if isinstance(x, (tuple, str, range)):
        return len(x)
    if isinstance(x, SymList):
        return size_num(x.dim)
    if isinstance(x, (ListV, SetV)):
        p = I.hget(x.loc)
        if isinstance(p, list):
            return len(p)
        if type(p).__name__ == "SymListP":
            return size_num(p.dim)
        raise Unsupported("length of a list of unknown content")
    if isinstance(x, DictV):
        return len(I.hget(x.loc))
    if isinstance(x, Obj):
        f, _ = x.cls.lookup("__len__")
        if f is not None:
            return I.call(I.bind(f, x), [], {})
        if x.cls.kind == "namedtuple":
            return len(x.cls.annots)
        raise err("TypeError", "no len()")
    if isinstance(x, PhiVal):
        return I.cond_eval(x.c, lambda: EXT["builtins.len"](I, [x.a], {}), lambda: EXT["builtins.len"](I, [x.b], {}))
    r = iterate_ext(I, x, None)
    if r is not None:
        return len(r)
    if x is None:
        raise err("TypeError", "object of type NoneType has no len()")
    raise Unsupported(f"len of {x!r}")


@B("range")
def _(I, args, kwargs):
    ints = [as_int(a) for a in args]
    if len(args) == 1 and isinstance(args[0], Num) and args[0].flags[:1] == ("size",):
        return ExtObj("symrange", dim=args[0].flags[1])
    if len(args) == 2 and ints[0] == 0 and isinstance(args[1], Num) and args[1].flags[:1] == ("size",):
        return ExtObj("symrange", dim=args[1].flags[1])
    if any(i is None for i in ints):
        raise Unsupported("range of unknown length")
    return range(*ints)


@B("enumerate")
def _(I, args, kwargs):
    it = args[0]
    start = as_int(args[1] if len(args) > 1 else kwargs.get("start", 0))
    d = symbolic_iter(I, it)
    if d is not None:
        return ExtObj("symzip", dim=d, parts=[ExtObj("symrange", dim=d), it])
    return tuple((i + start, x) for i, x in enumerate(I.iterate(it)))


@B("zip")
def _(I, args, kwargs):
    ds = [symbolic_iter(I, a) for a in args]
    if any(d is not None for d in ds):
        d = next(x for x in ds if x is not None)
        for x in ds:
            if x is not None and x != d:
                raise err("GridMismatch", "zip of sequences along different axes")
        if any(x is None for x in ds):
            raise Unsupported("zip of a sequence of unknown length and a list")
        return ExtObj("symzip", dim=d, parts=list(args))
    return tuple(zip(*[list(I.iterate(a)) for a in args]))


def class_matches(I, x, t):
    """isinstance(x, t): True, False or None when not known"""
    if isinstance(t, tuple):
        rs = [class_matches(I, x, y) for y in t]
        if True in rs:
            return True
        return None if None in rs else False
    if isinstance(x, PhiVal):
        a, b = class_matches(I, x.a, t), class_matches(I, x.b, t)
        return a if a == b else canon(al.where(x.c, lift(a), lift(b)))
    if isinstance(t, ClassV):
        if isinstance(x, Obj):
            return x.cls.issub(t)
        if isinstance(x, ExcV) and isinstance(x.cls, ClassV):
            return x.cls.issub(t)
        return False
    if isinstance(t, Ext):
        nm = t.name.split("[")[0]
        leaf = nm.split(".")[-1]
        if isinstance(x, Num):
            if leaf in ("Quantity",):
                return x.unit is not None
            if leaf in ("Constant",):
                return x.flags[:1] == ("const",)
            if leaf == "ndarray":
                return x.arr and (bool(x.dims) or x.unit is not None)
            if leaf in ("Iterable", "Sequence", "Sized", "Collection"):
                # a scalar quantity defines __iter__ as well
                return bool(x.dims) or (x.unit is not None and leaf == "Iterable")
            if leaf in ("Number", "Real", "Complex"):
                return not x.dims and x.unit is None and not (x.arr and False)
            if leaf in ("float", "floating", "float64"):
                return not x.dims and x.unit is None and x.dt == "f"
            if leaf in ("int", "integer", "Integral", "int64"):
                return not x.dims and x.unit is None and x.dt == "i"
            if leaf in ("bool", "bool_"):
                return not x.dims and x.unit is None and x.dt == "b"
            if leaf == "object":
                return True
            return False
        if isinstance(x, bool):
            return leaf in ("bool", "int", "Number", "Real", "Integral", "object")
        if isinstance(x, int):
            return leaf in ("int", "Number", "Real", "Integral", "Complex", "object", "Rational")
        if isinstance(x, str):
            return leaf in ("str", "Iterable", "Sequence", "object", "Sized")
        if isinstance(x, tuple):
            return leaf in ("tuple", "Iterable", "Sequence", "object", "Sized", "Collection", "Tuple")
        if isinstance(x, ListV) or isinstance(x, SymList):
            return leaf in ("list", "Iterable", "Sequence", "object", "Sized", "Collection", "List")
        if isinstance(x, DictV):
            return leaf in ("dict", "Iterable", "Mapping", "object", "Dict")
        if isinstance(x, SetV):
            return leaf in ("set", "Iterable", "object")
        if x is None:
            return leaf in ("NoneType", "object")
        if isinstance(x, u.UnitBase):
            return leaf in ("UnitBase", "Unit", "IrreducibleUnit", "CompositeUnit", "object")
        if isinstance(x, (FuncV, Bound, UserFunc, Ext, BuiltinM)):
            return leaf in ("Callable", "FunctionType", "object")
        if isinstance(x, Obj):
            if leaf == "object":
                return True
            if leaf == "Callable":
                return x.cls.lookup("__call__")[1] is not None
            if leaf == "Iterable":
                return x.cls.lookup("__iter__")[1] is not None or x.cls.kind == "namedtuple"
            if leaf == "tuple":
                return x.cls.kind == "namedtuple"
            return nm in x.cls.ext_bases()
        if isinstance(x, ExcV):
            if isinstance(x.cls, ClassV):
                return any(exc_sub(b.split(".")[-1], leaf) for b in x.cls.ext_bases())
            return exc_sub(x.cls, leaf)
        if isinstance(x, ExtObj):
            return leaf == x.kind or leaf in x.data.get("classes", ())
        if isinstance(x, Opaque):
            return al.ind("isinstance", x.what, leaf)
        return False
    if isinstance(t, ExtObj) and t.kind == "type":
        return class_matches(I, x, t.data["cls"])
    return False


@B("isinstance")
def _(I, args, kwargs):
    t = args[1]
    x = args[0]
    if isinstance(x, PhiVal):
        x = I.simplify_phi(x)
    if isinstance(t, tuple):
        t = tuple(t)
    r = class_matches(I, x, t)
    if isinstance(r, bool):
        return r
    if isinstance(r, E):
        return Num(r, None, (), "b")
    raise Unsupported("isinstance")


@B("issubclass")
def _(I, args, kwargs):
    c, t = args
    if isinstance(t, tuple):
        return any(EXT["builtins.issubclass"](I, [c, x], {}) for x in t)
    if isinstance(c, ClassV) and isinstance(t, ClassV):
        return c.issub(t)
    if isinstance(c, ClassV) and isinstance(t, Ext):
        return t.name in c.ext_bases()
    return c is t


@B("type")
def _(I, args, kwargs):
    x = args[0]
    if isinstance(x, PhiVal):
        x = I.simplify_phi(x)
        if isinstance(x, PhiVal):
            return I.phi(x.c, EXT["builtins.type"](I, [x.a], {}), EXT["builtins.type"](I, [x.b], {}))
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, Num):
        if x.unit is not None:
            return Ext("astropy.units.Quantity")
        if x.dims:
            return Ext("numpy.ndarray")
        return Ext({"f": "builtins.float", "i": "builtins.int", "b": "builtins.bool"}[x.dt])
    if isinstance(x, (bool, int, str, tuple)):
        return Ext("builtins." + type(x).__name__)
    if isinstance(x, ListV):
        return Ext("builtins.list")
    if isinstance(x, DictV):
        return Ext("builtins.dict")
    if isinstance(x, ExcV):
        return x.cls if isinstance(x.cls, ClassV) else Ext("builtins." + x.cls)
    if isinstance(x, ClassV):
        return Ext("builtins.type")
    return Ext("builtins.type_of_" + type(x).__name__)


@B("hasattr")
def _(I, args, kwargs):
    saved = I.raises
    I.raises = []
    try:
        I.getattr(args[0], args[1])
        return True
    except AbsRaise as x:
        if exc_sub(x.exc.name, "AttributeError"):
            return False
        raise
    finally:
        I.raises = saved


@B("getattr")
def _(I, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with an unknown name")
    try:
        return I.getattr(args[0], args[1])
    except AbsRaise as x:
        if len(args) > 2 and exc_sub(x.exc.name, "AttributeError"):
            return args[2]
        raise


@B("setattr")
def _(I, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported("setattr with an unknown name")
    I.setattr(*args)


@B("delattr")
def _(I, args, kwargs):
    d = dict(I.hget(args[0].loc))
    d.pop(args[1], None)
    I.st.heap[args[0].loc] = d


@B("callable")
def _(I, args, kwargs):
    x = args[0]
    if isinstance(x, Obj):
        return x.cls.lookup("__call__")[1] is not None
    return isinstance(x, (FuncV, Bound, ClassV, Ext, UserFunc, BuiltinM))


@B("sum")
def _(I, args, kwargs):
    it = args[0]
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    d = symbolic_iter(I, it)
    if d is not None:
        n = as_num(I, it)
        return binop(I, ast.Add(), reduce_axis(I, "sum", n, 0), start)
    acc = start
    for x in I.iterate(it):
        acc = binop(I, ast.Add(), acc, x)
    return acc


def _pyminmax(kind):
    @B(kind)
    def h(I, args, kwargs):
        key = kwargs.get("key")
        items = list(args)
        if len(args) == 1:
            d = symbolic_iter(I, args[0])
            if d is not None:
                return reduce_axis(I, kind, as_num(I, args[0]), 0)
            items = list(I.iterate(args[0]))
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            raise err("ValueError", "empty sequence")
        if key is not None:
            ks = [I.call(key, [x], {}) for x in items]
        else:
            ks = items
        best, bk = items[0], ks[0]
        for x, k in zip(items[1:], ks[1:]):
            op = ast.Gt() if kind == "max" else ast.Lt()
            t = I.truth(compare(I, op, k, bk))
            if t is True:
                best, bk = x, k
            elif t is not False:
                best, bk = I.phi(t, x, best), I.phi(t, k, bk)
        return best


_pyminmax("max")
_pyminmax("min")


@B("abs")
def _(I, args, kwargs):
    if isinstance(args[0], int):
        return abs(args[0])
    return EXT["numpy.abs"](I, args, {})


@B("float")
def _(I, args, kwargs):
    if not args:
        return scalar(0.0)
    if isinstance(args[0], str):
        return scalar(float(args[0]))
    n = as_num(I, args[0])
    if any(d != 1 for d in n.dims):
        raise err("TypeError", "only length-1 arrays can be converted to Python scalars")
    n = to_plain(n) if n.unit is not None else n
    return Num(n.node, None, (), "f")


EXT["numpy.float64"] = EXT["numpy.float32"] = EXT["numpy.double"] = EXT["numpy.longdouble"] = lambda I, a, k: _float_cast(I, a)


def _float_cast(I, a):
    n = as_num(I, a[0])
    return Num(to_plain(n).node if n.unit is not None else n.node, None, n.dims, "f")


@B("int")
def _(I, args, kwargs):
    if not args:
        return 0
    if isinstance(args[0], str):
        return int(args[0])
    k = as_int(args[0])
    if k is not None:
        return k
    n = to_plain(as_num(I, args[0]))
    c = const(n.node)
    if c is not None:
        return int(c)
    if n.dt == "i" or n.flags[:1] == ("size",):
        return n
    return Num(al.fn("trunc", n.node), None, (), "i")


@B("round")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    k = args[1] if len(args) > 1 else 0
    c = const(n.node)
    if c is not None:
        r = round(c, as_int(k) or 0) if len(args) > 1 else round(c)
        return r if isinstance(r, int) and len(args) == 1 else Num(E(F(r)), n.unit)
    return Num(al.fn("round%s" % as_int(k), n.node), n.unit, n.dims, n.dt)


@ext("numpy.round", "numpy.around", "numpy.rint")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    k = as_int(kwargs.get("decimals", args[1] if len(args) > 1 else 0))
    if k is None:
        raise Unsupported("rounding to an unknown number of decimals")
    return Num(al.fn("round%s" % k, n.node), n.unit, n.dims, n.dt, arr=n.arr)


@nummeth("round")
def _(I, n, args, kwargs):
    return EXT["numpy.round"](I, [n] + list(args), kwargs)


@B("str")
def _(I, args, kwargs):
    if not args:
        return ""
    x = args[0]
    if isinstance(x, (str, int, PathV)):
        return str(x)
    if isinstance(x, Obj):
        for m in ("__str__", "__repr__"):
            f, _ = x.cls.lookup(m)
            if f is not None:
                return I.call(I.bind(f, x), [], {})
    if isinstance(x, UserFunc):
        return f"<function {x.name}>"
    if isinstance(x, FuncV):
        # different function objects have different addresses
        ids = I.__dict__.setdefault("funcids", {})
        return f"<function {x.qual} at {ids.setdefault(id(x), (len(ids), x))[0]}>"
    return Opaque("string")


EXT["builtins.repr"] = EXT["builtins.format"] = lambda I, a, k: Opaque("string")


@B("bool")
def _(I, args, kwargs):
    t = I.truth(args[0]) if args else False
    return t if isinstance(t, bool) else Num(t, None, (), "b")


def _symlist(I, x):
    d = symbolic_iter(I, x)
    if d is not None:
        from .interp import SymListP
        v = ListV()
        I.st.heap[v.loc] = SymListP(d, symbolic_elem(I, x, d))
        return v
    return None


@B("list")
def _(I, args, kwargs):
    if not args:
        return I.new_list([])
    return _symlist(I, args[0]) or I.new_list(I.iterate(args[0]))


@B("tuple")
def _(I, args, kwargs):
    if not args:
        return ()
    r = _symlist(I, args[0])
    return r if r is not None else tuple(I.iterate(args[0]))


@B("dict")
def _(I, args, kwargs):
    d = {}
    if args:
        if isinstance(args[0], DictV):
            d.update(I.hget(args[0].loc))
        else:
            for p in I.iterate(args[0]):
                k, v = I.iterate(p)
                d[dkey(I, k)] = v
    d.update(kwargs)
    return I.new_dict(d)


@B("set")
def _(I, args, kwargs):
    s = SetV()
    out = []
    for x in (I.iterate(args[0]) if args else []):
        if dkey(I, x) not in [dkey(I, y) for y in out]:
            out.append(x)
    I.st.heap[s.loc] = out
    return s


EXT["builtins.frozenset"] = EXT["builtins.set"]


@B("sorted")
def _(I, args, kwargs):
    items = list(I.iterate(args[0]))
    key = kwargs.get("key")
    ks = [I.call(key, [x], {}) for x in items] if key is not None else items
    rev = kwargs.get("reverse", False) is True
    if all(isinstance(k, str) for k in ks) or all(as_int(k) is not None for k in ks):
        kk = [k if isinstance(k, str) else as_int(k) for k in ks]
        idx = sorted(range(len(items)), key=lambda i: kk[i], reverse=rev)
        return I.new_list([items[i] for i in idx])
    if len(items) <= 1:
        return I.new_list(items)
    cs = [const(as_num(I, k).node) if isnum(k) else None for k in ks]
    if all(c is not None for c in cs):
        idx = sorted(range(len(items)), key=lambda i: cs[i], reverse=rev)
        return I.new_list([items[i] for i in idx])
    raise Unsupported("sorting of unknown values")


@B("reversed")
def _(I, args, kwargs):
    return I.new_list(list(I.iterate(args[0]))[::-1])


@B("map")
def _(I, args, kwargs):
    f = args[0]
    if len(args) == 2:
        d = symbolic_iter(I, args[1])
        if d is not None:
            return SymList(d, I.call(f, [symbolic_elem(I, args[1], d)], {}))
    return I.new_list([I.call(f, list(xs), {}) for xs in zip(*[list(I.iterate(a)) for a in args[1:]])])


@B("filter")
def _(I, args, kwargs):
    out = []
    for x in I.iterate(args[1]):
        t = I.truth(I.call(args[0], [x], {}) if args[0] is not None else x)
        if t is True:
            out.append(x)
        elif t is not False:
            raise Unsupported("filter on an unknown condition")
    return I.new_list(out)


@B("any")
def _(I, args, kwargs):
    if symbolic_iter(I, args[0]) is not None:
        return EXT["numpy.any"](I, [as_num(I, args[0])], {})
    acc = ZERO
    for x in I.iterate(args[0]):
        t = I.truth(x)
        if t is True:
            return True
        if t is not False:
            acc = canon(sub(add(acc, t), mul2(acc, t)))
    return boolnum(acc, (), False)


@B("all")
def _(I, args, kwargs):
    if symbolic_iter(I, args[0]) is not None:
        return EXT["numpy.all"](I, [as_num(I, args[0])], {})
    acc = ONE
    for x in I.iterate(args[0]):
        t = I.truth(x)
        if t is False:
            return False
        if t is not True:
            acc = canon(mul2(acc, t))
    return boolnum(acc, (), False)


EXT["builtins.print"] = lambda I, a, k: None
EXT["builtins.id"] = lambda I, a, k: a[0].loc if hasattr(a[0], "loc") else 0
EXT["builtins.hash"] = lambda I, a, k: 0
EXT["builtins.slice"] = lambda I, a, k: slice(*a) if len(a) > 1 else slice(None, a[0])
EXT["builtins.object"] = lambda I, a, k: ExtObj("object")
EXT["builtins.object.__init__"] = lambda I, a, k: None
EXT["builtins.property"] = lambda I, a, k: PropV(*a)
EXT["builtins.staticmethod"] = lambda I, a, k: StaticV(a[0])
EXT["builtins.classmethod"] = lambda I, a, k: ClsM(a[0])
EXT["builtins.vars"] = lambda I, a, k: DictV(a[0].loc) if isinstance(a[0], Obj) else I.new_dict(I.hget(a[0].loc))
EXT["builtins.super"] = lambda I, a, k: SuperV(a[0], a[1])
EXT["builtins.iter"] = lambda I, a, k: a[0]
EXT["builtins.divmod"] = lambda I, a, k: (binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1]))
EXT["builtins.open"] = lambda I, a, k: Opaque("file")
EXT["abc.abstractmethod"] = lambda I, a, k: a[0]
EXT["functools.wraps"] = lambda I, a, k: BuiltinM(None, "wraps", lambda I, o, a, k: a[0])
EXT["functools.partial"] = lambda I, a, k: ExtObj("partial", f=a[0], args=list(a[1:]), kwargs=dict(k))
OBJCALL["partial"] = lambda I, o, a, k: I.call(o.data["f"], o.data["args"] + list(a), {**o.data["kwargs"], **k})
EXT["functools.reduce"] = lambda I, a, k: _reduce(I, a)


def _reduce(I, a):
    items = list(I.iterate(a[1]))
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


def _cache(I, a, k):
    from .interp import CacheV
    if a and isinstance(a[0], FuncV):
        return CacheV(a[0])
    return BuiltinM(None, "cache", lambda I, o, a, k: CacheV(a[0]))


EXT["functools.lru_cache"] = EXT["functools.cache"] = _cache
EXT["functools.cached_property"] = EXT["astropy.utils.decorators.lazyproperty"] = EXT["astropy.utils.lazyproperty"] = \
    lambda I, a, k: PropV(a[0], cached=True)
EXT["dataclasses.dataclass"] = lambda I, a, k: ExtObj("dataclass")
EXT["dataclasses.field"] = lambda I, a, k: ExtObj("field", **k)
EXT["copy.deepcopy"] = lambda I, a, k: deepcopy(I, a[0], {})
EXT["copy.copy"] = lambda I, a, k: shallow(I, a[0])
EXT["warnings.warn"] = lambda I, a, k: None
EXT["logging.getLogger"] = lambda I, a, k: Opaque("logger")
EXT["time.time"] = lambda I, a, k: Num(al.sym("clock", True))
EXT["typing.cast"] = lambda I, a, k: a[1]
EXT["operator.mul"] = lambda I, a, k: binop(I, ast.Mult(), a[0], a[1])
EXT["operator.add"] = lambda I, a, k: binop(I, ast.Add(), a[0], a[1])
EXT["operator.attrgetter"] = lambda I, a, k: BuiltinM(a[0], "attrgetter", lambda I, o, b, k: I.getattr(b[0], o))
EXT["operator.itemgetter"] = lambda I, a, k: BuiltinM(a[0], "itemgetter", lambda I, o, b, k: getitem(I, b[0], o))


def _chain(I, a, k):
    out = []
    for x in a:
        out.extend(I.iterate(x))
    return I.new_list(out)


EXT["itertools.chain"] = _chain
EXT["itertools.chain.from_iterable"] = lambda I, a, k: _chain(I, list(I.iterate(a[0])), k)
EXT["itertools.product"] = lambda I, a, k: tuple(__import__("itertools").product(*[list(I.iterate(x)) for x in a]))


def deepcopy(I, v, memo):
    if isinstance(v, (Obj, ListV, DictV, SetV)):
        if v.loc in memo:
            return memo[v.loc]
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__deepcopy__")
            if f is not None:
                return I.call(I.bind(f, v), [I.new_dict({})], {})
            r = Obj(v.cls)
        else:
            r = type(v)()
        memo[v.loc] = r
        p = I.hget(v.loc)
        if isinstance(p, dict):
            I.st.heap[r.loc] = {k: deepcopy(I, x, memo) for k, x in p.items()}
        elif isinstance(p, list):
            I.st.heap[r.loc] = [deepcopy(I, x, memo) for x in p]
        else:
            I.st.heap[r.loc] = p
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, Num):
        return I.cur(v).replace(alias=None, k=ONE)
    if isinstance(v, PhiVal):
        return PhiVal(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    return v


def shallow(I, v):
    if isinstance(v, (Obj, ListV, DictV, SetV)):
        r = Obj(v.cls) if isinstance(v, Obj) else type(v)()
        p = I.hget(v.loc)
        I.st.heap[r.loc] = dict(p) if isinstance(p, dict) else list(p) if isinstance(p, list) else p
        return r
    if isinstance(v, Num):
        return I.cur(v).replace(alias=None, k=ONE)
    return v


# ------------------------------------------------- methods of containers
def list_extend(I, l, v):
    p = I.hget(l.loc)
    if not isinstance(p, list):
        raise Unsupported("extend of a list of unknown content")
    I.st.heap[l.loc] = p + list(I.iterate(v))
    I.event("container_write", loc=l.loc)


def _lm(f):
    def h(I, l, args, kwargs):
        p = I.hget(l.loc)
        if not isinstance(p, list):
            raise Unsupported("method of a list of unknown content")
        p = list(p)
        r = f(I, p, args, kwargs)
        I.st.heap[l.loc] = p
        I.event("container_write", loc=l.loc)
        return r
    return h


def _sort(I, p, a, k):
    r = EXT["builtins.sorted"](I, [tuple(p)], k)
    p[:] = list(I.iterate(r))


def _remove(I, p, a, k):
    for i, x in enumerate(p):
        if I.truth(equals(I, x, a[0])) is True:
            del p[i]
            return
    raise err("ValueError", "list.remove(x): x not in list")


LISTMETH = {
    "append": _lm(lambda I, p, a, k: p.append(a[0])),
    "extend": lambda I, l, a, k: list_extend(I, l, a[0]),
    "insert": _lm(lambda I, p, a, k: p.insert(as_int(a[0]), a[1])),
    "pop": _lm(lambda I, p, a, k: p.pop(as_int(a[0])) if a else p.pop()),
    "remove": _lm(_remove),
    "clear": _lm(lambda I, p, a, k: p.clear()),
    "reverse": _lm(lambda I, p, a, k: p.reverse()),
    "sort": _lm(_sort),
    "copy": lambda I, l, a, k: shallow(I, l),
    "index": lambda I, l, a, k: _seq_meth(I, list(I.iterate(l)), "index", a),
    "count": lambda I, l, a, k: _seq_meth(I, list(I.iterate(l)), "count", a),
}


def _dkeys(I, o):
    return tuple(I.hget(o.loc))


def _dupd(I, o, a, k):
    d = dict(I.hget(o.loc))
    if a:
        if isinstance(a[0], DictV):
            d.update(I.hget(a[0].loc))
        else:
            for kv in I.iterate(a[0]):
                x, y = I.iterate(kv)
                d[dkey(I, x)] = y
    d.update(k)
    I.st.heap[o.loc] = d
    I.event("container_write", loc=o.loc)


def _dpop(I, o, a, k):
    d = dict(I.hget(o.loc))
    kk = dkey(I, a[0])
    if kk in d:
        v = d.pop(kk)
        I.st.heap[o.loc] = d
        I.event("container_write", loc=o.loc)
        return v
    if len(a) > 1:
        return a[1]
    raise err("KeyError", str(a[0]))


def _dsetdef(I, o, a, k):
    d = I.hget(o.loc)
    kk = dkey(I, a[0])
    if kk in d:
        return d[kk]
    v = a[1] if len(a) > 1 else None
    I.hset(o.loc, kk, v)
    return v


def _dget(I, o, a, k):
    d = I.hget(o.loc)
    kk = dkey(I, a[0])
    v = d.get(kk, a[1] if len(a) > 1 else k.get("default"))
    return I.cur(v) if isinstance(v, Num) else v


DICTMETH = {
    "keys": lambda I, o, a, k: _dkeys(I, o),
    "values": lambda I, o, a, k: tuple(I.cur(v) if isinstance(v, Num) else v for v in I.hget(o.loc).values()),
    "items": lambda I, o, a, k: tuple((x, I.cur(v) if isinstance(v, Num) else v) for x, v in I.hget(o.loc).items()),
    "get": _dget, "update": _dupd, "pop": _dpop, "setdefault": _dsetdef,
    "copy": lambda I, o, a, k: shallow(I, o),
    "clear": lambda I, o, a, k: I.st.heap.__setitem__(o.loc, {}),
}


def _sadd(I, o, a, k):
    p = list(I.hget(o.loc))
    if contains(I, o, a[0]) is not True:
        p.append(a[0])
    I.st.heap[o.loc] = p


SETMETH = {"add": _sadd, "copy": lambda I, l, a, k: shallow(I, l),
           "issubset": lambda I, o, a, k: all(contains(I, a[0], x) is True for x in I.iterate(o)),
           "issuperset": lambda I, o, a, k: all(contains(I, o, x) is True for x in I.iterate(a[0])),
           "union": lambda I, o, a, k: binop(I, ast.BitOr(), o, EXT["builtins.set"](I, [a[0]], {})),
           "difference": lambda I, o, a, k: binop(I, ast.Sub(), o, EXT["builtins.set"](I, [a[0]], {})),
           "intersection": lambda I, o, a, k: binop(I, ast.BitAnd(), o, EXT["builtins.set"](I, [a[0]], {}))}


def _strm(name):
    def h(I, s, args, kwargs):
        if name == "format":
            if all(isinstance(a, (str, int)) for a in args) and all(isinstance(v, (str, int)) for v in kwargs.values()):
                return s.format(*args, **kwargs)
            return Opaque("string")
        if name == "join":
            items = list(I.iterate(args[0]))
            return s.join(items) if all(isinstance(x, str) for x in items) else Opaque("string")
        a = [tuple(I.iterate(x)) if isinstance(x, ListV) else x for x in args]
        if any(not isinstance(x, (str, int, tuple, type(None))) for x in a):
            return Opaque("string")
        r = getattr(s, name)(*a)
        return I.new_list(r) if isinstance(r, list) else r
    return h


STRMETH = {n: _strm(n) for n in ("format join split rsplit strip lstrip rstrip lower upper startswith endswith replace title "
                                 "capitalize find count isdigit partition rpartition index zfill splitlines removeprefix "
                                 "removesuffix isalpha isnumeric encode").split()}


def iterate_ext(I, v, n):
    if isinstance(v, ExtObj) and (v.kind, "__iter__") in OBJMETH:
        return OBJMETH[(v.kind, "__iter__")](I, v, [], {})
    return None


# ---------------------------------------------------------- astropy / scipy
@ext("astropy.coordinates.Distance", "astropy.coordinates.distances.Distance")
def _(I, args, kwargs):
    kw = dict(kwargs)
    z = kw.pop("z", None)
    cosmo = kw.pop("cosmology", None)
    un = kw.pop("unit", None)
    if args or z is None:
        q = EXT["astropy.units.Quantity"](I, list(args[:1]) if args else [kw["value"]], {"unit": args[1] if len(args) > 1 else un})
        return q
    n = to_plain(as_num(I, z))
    if I.generic:
        pass
    cn = cosmo_node(I, cosmo)
    return Num(mul2(al.fn("luminosity_distance", n.node, cn, pos=True), unit_scale(u.Mpc)), u.Mpc if un is None else parse_unit(I, un), n.dims, "f")


def cosmo_node(I, cosmo):
    if cosmo is None:
        return al.sym("default_cosmology", True)
    if isinstance(cosmo, UserFunc):
        return al.sym("cosmology:" + cosmo.name, True)
    if isinstance(cosmo, PhiVal):
        return al.where(cosmo.c, cosmo_node(I, cosmo.a), cosmo_node(I, cosmo.b))
    return al.sym("cosmology:" + repr(cosmo), True)


OBJMETH[("cosmology", "luminosity_distance")] = lambda I, o, a, k: Num(
    mul2(al.fn("luminosity_distance", to_plain(as_num(I, a[0])).node, al.sym("cosmology:" + o.data["name"], True), pos=True), unit_scale(u.Mpc)), u.Mpc)


@ext("astropy.modeling.models.BlackBody", "astropy.modeling.physical_models.BlackBody")
def _(I, args, kwargs):
    T, scale = _args(["temperature", "scale"], args, kwargs, temperature=Num(mul2(lift(5000), unit_scale(u.K)), u.K, (), "f"), scale=1)
    return ExtObj("BlackBody", T=as_num(I, T), scale=as_num(I, scale))


def _blackbody(I, o, args, kwargs):
    x = as_num(I, args[0])
    nu = convert(I, x, u.Hz, ExtObj("equivalency", f=_spectral)) if x.unit is not None else Num(x.node, u.Hz, x.dims)
    T = o.data["T"]
    if T.unit is None:
        T = Num(T.node, u.K, T.dims)
    h, c, k = cval("h"), cval("c"), cval("k_B")
    n = nu.node
    num_ = mul(lift(2), h, rpow(n, 3), inv(mul2(c, c)))
    den = sub(al.exp(mul(h, n, inv(mul2(k, T.node)))), ONE)
    un = u.Unit("erg / (cm2 s Hz sr)")
    s = o.data["scale"]
    if s.unit is not None:
        un2 = s.unit
        val = mul(num_, inv(den), s.node)
        if un2.is_equivalent(DIMLESS):
            return Num(val, un, broadcast(nu.dims, T.dims))
        return Num(val, un2, broadcast(nu.dims, T.dims))
    return Num(mul(num_, inv(den), s.node), un, broadcast(nu.dims, broadcast(T.dims, s.dims)))


OBJCALL["BlackBody"] = _blackbody
def _bb_evaluate(I, o, a, k):
    x, T, scale = _args(["x", "temperature", "scale"], a, k)
    return _blackbody(I, ExtObj("BlackBody", T=as_num(I, T), scale=as_num(I, scale)), [x], {})


OBJMETH[("BlackBody", "evaluate")] = _bb_evaluate


def bound_data(name, n):
    """data of an interpolation: the axis is bound"""
    node = n.node
    xs = listed(n)
    if xs is not None and n.dims != (1,):
        return al.fn("points", *xs)
    for d in n.dims:
        b, w = unmask(d)
        if b == 1:
            continue
        f = canon(node)
        args = ("data", b, f) if w is None else ("masked_data", b, f, canon(w))
        node = al.atom_expr(al._intern("red", args, False, (al.deps(f) | (al.deps(w) if w is not None else frozenset())) - {b}))
    return node


def _mkspline(kind):
    def h(I, args, kwargs):
        x, y = as_num(I, args[0]), as_num(I, args[1])
        if len(x.dims) == 1 and len(y.dims) >= 1 and x.dims[0] != y.dims[0] and x.dims[0] != 1 and \
                not (len(y.dims) == 1 and dim_size(x.dims[0]) is not None and dim_size(x.dims[0]) == dim_size(y.dims[0])):
            raise err("GridMismatch", "interpolation of data sampled on another axis")
        extra = tuple(sorted((k, repr(v)) for k, v in kwargs.items()))
        return ExtObj("spline", name=kind, x=bound_data("x", to_plain(x) if x.unit is not None else x),
                      y=bound_data("y", y), order=0, extra=extra, yunit=None)
    return h


for _k in ("CubicSpline", "PchipInterpolator", "Akima1DInterpolator", "interp1d", "InterpolatedUnivariateSpline", "UnivariateSpline", "make_interp_spline"):
    EXT["scipy.interpolate." + _k] = _mkspline(_k)


def _spline_call(I, o, args, kwargs):
    x = as_num(I, args[0])
    x = to_plain(x) if x.unit is not None else x
    nu = args[1] if len(args) > 1 else kwargs.get("nu", 0)
    d = o.data
    order = d["order"] + (as_int(nu) or 0)
    return Num(al.fn("interp_%s_%d" % (d["name"], order), d["x"], d["y"], x.node, str(d["extra"])), None, x.dims, "f")


OBJCALL["spline"] = _spline_call
OBJMETH[("spline", "derivative")] = lambda I, o, a, k: ExtObj("spline", **{**o.data, "order": o.data["order"] + (as_int(a[0]) if a else 1)})


@ext("numpy.interp")
def _(I, args, kwargs):
    x, xp, fp = [as_num(I, a) for a in args[:3]]
    extra = tuple(sorted((k, repr(v)) for k, v in kwargs.items()))
    return Num(al.fn("interp_linear_0", bound_data("x", xp), bound_data("y", fp), x.node, str(extra)), fp.unit, x.dims, "f")


@ext("scipy.interpolate.RegularGridInterpolator")
def _(I, args, kwargs):
    points, values, method, be, fill = _args(["points", "values", "method", "bounds_error", "fill_value"], args,
                                             {k: v for k, v in kwargs.items() if k not in ("solver", "solver_args")},
                                             method="linear", bounds_error=True, fill_value="nan")
    pts = [as_num(I, p) for p in I.iterate(points)]
    vn = as_num(I, values)
    if len(vn.dims) < len(pts) or any(len(p.dims) != 1 or p.dims[0] != d for p, d in zip(pts, vn.dims)):
        raise err("ValueError", "the axes of the values are not those of the points")
    fill = "nan" if isinstance(fill, Num) and fill.node is NAN_NODE else repr(fill)
    perm = sorted(range(len(pts)), key=lambda i: repr(pts[i].dims[0]))
    v = vn.replace(dims=tuple(sorted(vn.dims, key=repr)))
    ident = tuple(bound_data("p", pts[i]) for i in perm) + (bound_data("v", v),) + ((method, be, "nan" if be is True else fill),)
    return ExtObj("rginterp", ident=ident, npts=len(pts), perm=perm)


NAN_NODE = object()


def _rg_call(I, o, args, kwargs):
    x = args[0]
    npts = o.data["npts"]
    if isinstance(x, tuple):
        items = [as_num(I, a) for a in I.iterate(x)]
    else:
        n = as_num(I, x)
        d = n.dims[-1] if n.dims else None
        if d is None or dim_size(d) != npts:
            raise err("ValueError", "coordinates of another dimension")
        items = [getitem(I, n, (Ellipsis, i)) for i in range(npts)]
    if len(items) != npts:
        raise err("ValueError", "coordinates of another dimension")
    dims = ()
    for n in items:
        to_plain(n)
        dims = broadcast(dims, n.dims)
    return Num(al.fn("rginterp", *([i for i in o.data["ident"]] + [items[i].node for i in o.data["perm"]])), None, dims, "f")


OBJCALL["rginterp"] = _rg_call


@ext("numpy.vstack")
def _(I, args, kwargs):
    return stack(I, I.new_list(list(I.iterate(args[0]))))


@ext("numpy.stack")
def _(I, args, kwargs):
    seq, axis = _args(["arrays", "axis"], args, kwargs, axis=0)
    r = stack(I, I.new_list(list(I.iterate(seq))))
    k = as_int(axis) % len(r.dims)
    return r.replace(dims=r.dims[1:k + 1] + r.dims[:1] + r.dims[k + 1:])


@ext("numpy.column_stack")
def _(I, args, kwargs):
    r = stack(I, I.new_list(list(I.iterate(args[0]))))
    return r.replace(dims=r.dims[1:] + r.dims[:1])


@ext("numpy.delete")
def _(I, args, kwargs):
    a, k, axis = _args(["arr", "obj", "axis"], args, kwargs, axis=None)
    n, i = as_num(I, a), as_int(k)
    if i is None or axis is None and len(n.dims) != 1:
        raise Unsupported("numpy.delete")
    ax = as_int(axis) if axis is not None else 0
    d = n.dims[ax]
    nd = ("del", d, i)
    return Num(al.at_index(n.node, d, ("dim", nd, "del", i)), n.unit, n.dims[:ax] + (nd,) + n.dims[ax + 1:], n.dt)


# files: columns of a table, their axes being the rows and (declared in
# I.table_axes: column name -> extra axes) others
@ext("astropy.io.fits.open")
def _(I, args, kwargs):
    return ExtObj("fits", path=_path_name(args[0]))


def _path_name(p):
    return str(p) if isinstance(p, (str, PathV)) else p.what if isinstance(p, Opaque) else repr(p)


OBJMETH[("fits", "__getitem__")] = lambda I, o, a, k: ExtObj("hdu", path=o.data["path"], name=a[0])
OBJMETH[("fits", "close")] = lambda I, o, a, k: None
OBJMETH[("fits", "__enter__")] = lambda I, o, a, k: o
OBJMETH[("fits", "__exit__")] = lambda I, o, a, k: None
OBJATTR[("hdu", "data")] = lambda I, o: ExtObj("records", path=o.data["path"], name=o.data["name"])


def _column(I, o, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("record of a table")
    rows = ("rows", o.data["path"], o.data["name"])
    extra = tuple(("rows", o.data["path"], x) for x in getattr(I, "table_axes", {}).get((o.data["name"], a[0]), ()))
    return Num(al.sym(("column", o.data["path"], o.data["name"], a[0]), True, (rows,) + extra), None, (rows,) + extra, "f")


OBJMETH[("records", "__getitem__")] = _column
OBJMETH[("records", "field")] = _column


@ext("numpy.append", "numpy.concatenate", "numpy.hstack")
def _(I, args, kwargs):
    if isinstance(args[0], (tuple, ListV)):
        seqs, axis = I.iterate(args[0]), kwargs.get("axis", args[1] if len(args) > 1 else 0)
    elif len(args) > 1:
        seqs, axis = args[:2], kwargs.get("axis", args[2] if len(args) > 2 else None)
    else:
        raise Unsupported("concatenation")
    seqs = [as_num(I, x) for x in seqs]
    many = [s for s in seqs if len(s.dims) > 1]
    if many and axis is None:
        raise Unsupported("concatenation of flattened arrays")
    return concat(I, seqs, as_int(axis) if axis is not None else 0)


def padded(seqs, axis, unit):
    """one array of unknown length with single elements before and after it"""
    nd = max(len(s.dims) for s in seqs)
    if any(len(s.dims) != nd for s in seqs) and nd > 1:
        raise err("ValueError", "all the input array dimensions must match")
    axis = axis % nd
    big = [i for i, s in enumerate(seqs) if s.dims and s.dims[axis] != 1]
    if len(big) != 1:
        return None
    k = big[0]
    d = seqs[k].dims[axis]
    if dim_size(d) is not None and d[0] == "n" or isinstance(d, tuple) and d[0] == "mask":
        return None
    before, after = k, len(seqs) - 1 - k
    dim = ("cat", before, d, after)
    ref = seqs[k]
    node = al.at_index(ref.node, d, ("dim", dim, "off", -before))
    for i, s in enumerate(seqs):
        if i == k:
            continue
        if len(s.dims) == nd and nd > 1:
            for j in range(nd):
                if j != axis and s.dims[j] != ref.dims[j] and (s.dims[j] == 1 or ref.dims[j] == 1):
                    raise err("ValueError", "all the input array dimensions except for the concatenation axis must match")
            s = align(ref, s)
        node = al.where(al.isidx(dim, i if i < k else i - len(seqs)), s.node, node)
    dims = ref.dims[:axis] + (dim,) + ref.dims[axis + 1:]
    return Num(canon(node), unit, dims, "f" if any(s.dt == "f" for s in seqs) else seqs[0].dt)


def concat(I, seqs, axis=0):
    seqs = [s if s.dims else s.replace(dims=(1,)) for s in seqs]
    unit = next((s.unit for s in seqs if s.unit is not None), None)
    for s in seqs:
        if s.unit is None and unit is not None and not unit.is_equivalent(DIMLESS) and const(s.node) != 0:
            raise err("UnitConversionError", "concatenation")
        if s.unit is not None and not s.unit.is_equivalent(unit):
            raise err("UnitConversionError", "concatenation")
    if all(all(dim_size(d) is not None and d != 1 and d[0] == "n" or d == 1 for d in s.dims) for s in seqs):
        nd = len(seqs[0].dims)
        if any(len(s.dims) != nd for s in seqs):
            raise err("ValueError", "all the input array dimensions must match")
        if not -nd <= axis < nd:
            raise err("AxisError", "axis out of bounds")
        axis %= nd
        others = seqs[0].dims[:axis] + seqs[0].dims[axis + 1:]
        items = []
        for s in seqs:
            if nd > 1:
                rest = s.dims[:axis] + s.dims[axis + 1:]
                if [dim_size(x) for x in rest] != [dim_size(x) for x in others]:
                    raise err("ValueError", "all the input array dimensions except for the concatenation axis must match")
                for i in range(dim_size(s.dims[axis])):
                    e = s.node if s.dims[axis] == 1 else al.at_index(s.node, s.dims[axis], ("i", i))
                    items.append(align(Num(ZERO, None, others), Num(e, None, rest)).node)
            elif not s.dims or s.dims == (1,):
                items.append(s.node)
            else:
                items += [al.at_index(s.node, s.dims[0], ("i", i)) for i in range(s.dims[0][1])]
        items = tuple(canon(x) for x in items)
        dim = ("n", 0, ()) if not items else 1 if len(items) == 1 else ("n", len(items), items)
        node = ZERO if not items else items[0] if len(items) == 1 else al.vec(dim, items)
        return Num(node, unit, others[:axis] + (dim,) + others[axis:], "f" if any(s.dt == "f" for s in seqs) else seqs[0].dt)
    r = padded(seqs, axis, unit)
    if r is not None:
        return r
    if any(len(s.dims) > 1 for s in seqs):
        raise Unsupported("concatenation of arrays with several axes")
    dim = ("cat",) + tuple((s.dims[0] if s.dims else 1, canon(s.node)) for s in seqs)
    ex = []
    for s in seqs:
        ex.append(bound_data("c", s))
    at = al._intern("fn", ("concat", dim) + tuple(ex), all(al._is_pos(e) for e in ex), frozenset([dim]))
    return Num(al.atom_expr(at), unit, (dim,), "f" if any(s.dt == "f" for s in seqs) else seqs[0].dt)


@ext("importlib.resources.files")
def _(I, args, kwargs):
    return Opaque("path")


class PathV:
    """path of a file (constant)"""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, PathV) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


@ext("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def _(I, args, kwargs):
    import posixpath
    if args and all(isinstance(a, (str, PathV)) for a in args):
        return PathV(posixpath.join(*[str(a) if isinstance(a, PathV) else a for a in args]))
    return Opaque("path")


@ext("numpy.vectorize")
def _(I, args, kwargs):
    f = args[0]

    def call_(I, o, a, k):
        ns = [as_num(I, x) for x in a]
        dims = ()
        for n in ns:
            dims = broadcast(dims, n.dims)
        r = as_num(I, I.call(f, [Num(n.node, n.unit, (), n.dt) for n in ns], k))
        return Num(r.node, r.unit, dims, r.dt)
    return BuiltinM(None, "vectorized", call_)


@ext("numpy.ndim")
def _(I, args, kwargs):
    return len(as_num(I, args[0]).dims)


@ext("numpy.shape")
def _(I, args, kwargs):
    return NUMATTR["shape"](I, as_num(I, args[0]))


@ext("numpy.size")
def _(I, args, kwargs):
    return NUMATTR["size"](I, as_num(I, args[0]))


@ext("numpy.diff")
def _(I, args, kwargs):
    n = as_num(I, args[0])
    kw = dict(kwargs)
    ax = as_int(args[2] if len(args) > 2 else kw.get("axis", -1))
    if len(args) > 1 and as_int(args[1]) != 1 or "n" in kw or ax is None or not n.dims:
        raise Unsupported("numpy.diff of higher order")
    pre = (slice(None),) * (ax % len(n.dims))
    hi = num_getitem(I, n, pre + (slice(1, None),), None)
    lo = num_getitem(I, n, pre + (slice(None, -1),), None)
    return num_binop(I, ast.Sub(), hi, lo)


EXT["numpy.errstate"] = lambda I, a, k: Opaque("errstate")
EXT["numpy.seterr"] = lambda I, a, k: Opaque("errstate")


def object_setattr(I, a, k):
    I.raw_setattr(a[0], a[1], a[2])


def object_new(I, a, k):
    r = Obj(a[0])
    I.st.heap[r.loc] = {}
    return r


EXT["builtins.object.__setattr__"] = object_setattr
EXT["builtins.object.__getattribute__"] = lambda I, a, k: I.obj_getattr(a[0], a[1])
EXT["builtins.object.__new__"] = object_new
