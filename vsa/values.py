"""Abstract values."""
import itertools
import astropy.units as u
from .algebra import E, ONE, lift, num, const, F, mul2, inv, sym, rpow, PI
from . import algebra as al


class Unsupported(Exception):
    def __init__(self, msg, src=None):
        super().__init__(msg)
        self.src = src or al.CURRENT_SRC[0]


class AbsRaise(Exception):
    """the analysed code raises for certain"""

    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc
        self.src = al.CURRENT_SRC[0]


class ExcV:
    def __init__(self, cls, msg=""):
        self.cls = cls  # name of the exception class, or ClassV
        self.msg = msg
        self.args = ()
        self.src = al.CURRENT_SRC[0]

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return f"{self.name}({self.msg})"


_counter = itertools.count(1)


def newloc():
    return next(_counter)


class Num:
    """numeric value: node (value in canonical cgs units), unit, axes

    node : al.E
    unit : astropy unit or None (plain number / ndarray)
    dims : tuple of axis names (hashable), 1 for an axis of length one
    dt   : 'f', 'i', 'b'
    alias: buffers the storage may belong to (empty for python scalars)
    k    : this value = content of the buffer * k
    """

    __slots__ = ("node", "unit", "dims", "dt", "alias", "k", "arr", "viewof", "flags")

    def __init__(self, node, unit=None, dims=(), dt="f", alias=None, k=ONE, arr=None, viewof=None, flags=()):
        self.node = node
        self.unit = unit
        self.dims = tuple(dims)
        self.dt = dt
        if arr is None:
            arr = bool(self.dims) or unit is not None
        self.arr = arr
        if alias is None:
            alias = frozenset([newloc()]) if arr else frozenset()
        self.alias = alias
        self.k = k
        self.viewof = viewof
        self.flags = flags

    def replace(self, **kw):
        d = dict(node=self.node, unit=self.unit, dims=self.dims, dt=self.dt,
                 alias=self.alias, k=self.k, arr=self.arr, viewof=self.viewof, flags=self.flags)
        d.update(kw)
        return Num(**d)

    @property
    def isq(self):
        return self.unit is not None

    def __repr__(self):
        return f"<{al.show(self.node)} {'' if self.unit is None else self.unit!r} {[al.showdim(d) for d in self.dims]}>"


def scalar(x, dt=None):
    """python number -> Num"""
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(lift(x), None, (), "b")
    if isinstance(x, int):
        return Num(lift(x), None, (), "i")
    if isinstance(x, float):
        if x == float("inf"):
            return Num(al.INF)
        if x == float("-inf"):
            return Num(mul2(al.MINUS1, al.INF))
        if x != x:
            return Num(al.NAN)
        return Num(E(num(x)), None, (), "f")
    raise TypeError(repr(x))


def isnum(x):
    return isinstance(x, (Num, int, float)) and not isinstance(x, str)


# ---------------------------------------------------------------- units
CANON = [u.cm, u.g, u.s, u.K, u.rad, u.A, u.mol, u.cd]
_SCALE = {}
USERUNIT = {}


def userunit(name, base, label=None):
    """a unit chosen by the caller, of unknown size (symbolic scale)"""
    if name not in USERUNIT:
        f = {"cm": 3.0857, "G": 7.77}.get(name, 3.3)
        un = u.def_unit(name, f * base)
        USERUNIT[name] = (un, base, sym(label or "size_of_" + name, True))
    return USERUNIT[name][0]


def unit_scale(un):
    """size of the unit in canonical cgs units, as an expression"""
    if un is None:
        return ONE
    r = _SCALE.get(un)
    if r is not None:
        return r
    out = ONE
    un2 = un if isinstance(un, u.UnitBase) else u.Unit(un)
    c = un2
    out = mul2(out, E(_ratio(getattr(c, "scale", 1.0)))) if isinstance(c, u.CompositeUnit) else out
    bases = c.bases if isinstance(c, u.CompositeUnit) else [c]
    powers = c.powers if isinstance(c, u.CompositeUnit) else [1]
    for b, p in zip(bases, powers):
        nm = getattr(b, "name", None)
        if nm in USERUNIT and USERUNIT[nm][0] == b:
            s = mul2(USERUNIT[nm][2], unit_scale(USERUNIT[nm][1]))
        else:
            d = b.decompose(bases=CANON)
            s = E(_ratio(d.scale))
        out = mul2(out, rpow(s, F(p).limit_denominator(1000)))
    _SCALE[un] = out
    return out


def _ratio(x):
    if isinstance(x, complex):
        x = x.real
    return F("%.13g" % float(x)) if not isinstance(x, int) else F(x)


DIMLESS = u.dimensionless_unscaled


class Obj:
    """instance on the abstract heap"""

    __slots__ = ("cls", "loc")

    def __init__(self, cls):
        self.cls = cls
        self.loc = newloc()

    def __repr__(self):
        return f"<{self.cls.name} #{self.loc}>"


class ListV:
    __slots__ = ("loc",)

    def __init__(self):
        self.loc = newloc()


class DictV:
    __slots__ = ("loc",)

    def __init__(self, loc=None):
        self.loc = newloc() if loc is None else loc


class SetV:
    __slots__ = ("loc",)

    def __init__(self):
        self.loc = newloc()


class SymList:
    """sequence of unknown length: value depends on the index along dim"""

    __slots__ = ("dim", "val")

    def __init__(self, dim, val):
        self.dim, self.val = dim, val


class ClassV:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.qual = f"{module.name if module else '?'}.{name}"
        self.kind = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for x in b.mro():
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def ext_bases(self):
        r = []
        for k in self.mro():
            for b in k.bases:
                if isinstance(b, Ext):
                    r.append(b.name)
        return r

    def lookup(self, name):
        for k in self.mro():
            if name in k.ns:
                return k.ns[name], k
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, name, node, module, closure, defaults, kwdefaults, owner=None):
        self.name, self.node, self.module = name, node, module
        self.closure, self.defaults, self.kwdefaults = closure, defaults, kwdefaults
        self.owner = owner
        self.attrs = {}

    @property
    def qual(self):
        o = self.owner.name + "." if self.owner else ""
        return f"{self.module.name}.{o}{self.name}"

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class PropV:
    def __init__(self, fget, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV:
    def __init__(self, f):
        self.f = f


class ClsM:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.loc = newloc()
        self.done = False


class Ext:
    """external (not analysed) name"""

    __slots__ = ("name",)
    _tab = {}

    def __new__(cls, name):
        r = cls._tab.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._tab[name] = r
        return r

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtObj:
    """immutable instance of an external class"""

    def __init__(self, kind, **data):
        self.kind = kind
        self.data = data

    def __repr__(self):
        return f"<{self.kind}>"


class BuiltinM:
    """method of a builtin/abstract value, bound to it"""

    __slots__ = ("obj", "name", "fn")

    def __init__(self, obj, name, fn):
        self.obj, self.name, self.fn = obj, name, fn


class PhiVal:
    """a if cond else b, for values that are not numbers"""

    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"<phi {self.a!r} | {self.b!r}>"


class Opaque:
    """value without any tracked content (strings, plots, ...)"""

    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


class UserFunc:
    """function given by the user: unknown, pure"""

    def __init__(self, name, role=None, handler=None):
        self.name, self.role, self.handler = name, role, handler

    def __repr__(self):
        return f"<user function {self.name}>"
