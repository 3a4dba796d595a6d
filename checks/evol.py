"""Scenarios of the time evolution: an emission region with an arbitrary
electron distribution, unknown functions of the user, bins on an axis of
unknown length."""
from dists import *
from vsa import algebra as al
from vsa.values import *
import ast

TE = "agnpy.time_evolution.time_evolution:"
UT = "agnpy.time_evolution._time_evolution_utils:"
UNITS = {"energy": "erg s-1", "rel": "s-1", "abs": "cm-3 s-1"}


def QQ(sc, xs, unit=None):
    return sc.I.call(Ext("astropy.units.Quantity"), [sc.I.new_list(list(xs))] + ([U(unit)] if unit else []), {})


def generic_bins(a):
    """no two bins share their Lorentz factor, the densities do not all vanish"""
    if a.kind == "ind" and a.args[0] in ("red_any", "red_all"):
        y = al.canon(a.args[2])
        for i in al.ind_atoms(y):
            if al.ATOMS[i].args[0] == "eq0":
                y = al.set_ind(y, i, False)
        if al.is_zero(al.canon(y)):
            return False
    return None


def bounded(removed, low, up):
    """generic bins; whether some bins left the bounds, whether the first and the last bin are far from the bounds"""
    def decide(a):
        r = generic_bins(a)
        if r is not None or a.kind != "ind" or a.args[0] not in ("ge0", "eq0"):
            return r
        at = al.all_atoms(a.args[1])
        for i in at:
            x = al.ATOMS[i]
            if x.kind == "red" and x.args[0] == "count":
                y = al.subst(a.args[1], {al.atom_expr(x): number(str(int(removed))).node})
                c = al.const(al.canon(y))
                if c is not None:
                    return c >= 0 if a.args[0] == "ge0" else c == 0
        names = {al.ATOMS[i].args[0] for i in at if al.ATOMS[i].kind == "sym"}
        if "creep" in names:
            # far from the bound: the distance reaches the tolerance
            far = low if "b0" in names else up
            return far if positive_in(a.args[1], "creep") < 0 else not far
        return None
    return decide


def positive_in(e, name):
    """sign of the coefficient of a symbol in a sum"""
    for m, c in al.as_terms(al.canon(e)).items():
        for i, q in m:
            if al.ATOMS[i].kind == "sym" and al.ATOMS[i].args[0] == name:
                return 1 if c > 0 else -1
    # inside of a factor
    for i, q in al.canon(e).m:
        a = al.ATOMS[i]
        if a.kind in ("sum", "nsum"):
            t = a.args[0] if a.kind == "sum" else al.ATOMS[a.args[0]].args[0]
            for m, c in t:
                if any(al.ATOMS[j].kind == "sym" and al.ATOMS[j].args[0] == name for j, _ in m):
                    return (1 if c > 0 else -1) * (1 if a.kind == "sum" else -1) * (1 if e.c > 0 else -1)
    return 0


def whole(v, own=()):
    """key of all the values of an array"""
    e = al.canon(v.node)
    for d in v.dims:
        if d != 1:
            b, w = models.unmask(d)
            k = models.dim_size(b) if w is None else None
            if k is not None and k <= 12:
                e = al.fn("items", *[al.at_index(e, b, ("i", i)) for i in range(k)])
            elif w is None and b not in al.deps(e):
                e = al.fn("constant", e, al.canon(al.lift(models.dim_len(d))))
            else:
                e = al.reduce_("whole", e if w is None else al.fn("pair", e, w), b)
    return e


class Evolution:
    def __init__(self, chk, energy=("loss",), rel=("esc",), abs_=("inj",), lists=False, b=None, decide=generic_bins, blob_kw=None, state=True, empty=False, **kw):
        self.stateful = state
        self.sc = sc = Scenario(chk)
        sc.I.decide = decide
        self.names = dict(energy=list(energy), rel=list(rel), abs=list(abs_))
        self.blob = sc.call("agnpy:Blob", sc.q("R_b", "cm"), sc.num("z"), sc.num("delta_D"), sc.num("Gamma"), sc.q("B", "G"),
                            sc.call("agnpy.spectra:PowerLaw", sc.q("k", "cm-3"), sc.num("p"), sc.num("gmin"), sc.num("gmax")), **(blob_kw or {}))
        f, _ = sc.attr(self.blob, "n_e").cls.lookup("__call__")
        self.n0 = lambda g: Num(al.ZERO, U("cm-3"), g.dims, "f") if empty else Num(al.mul2(al.atom_expr(al._intern("fn", ("n0", al.canon(g.node)), True, al.deps(g.node))), unit_scale(U("cm-3"))), U("cm-3"), g.dims, "f")
        first = sc.attr(self.blob, "n_e")
        self.first = first

        def start(I, f_, args, kwargs):
            return self.n0(args[1]) if args[0] is first else NotImplemented
        sc.I.intrinsics[f.qual] = start
        self.calls = []
        self.fns = {k: {n: self.user(n, UNITS[k]) for n in self.names[k]} for k in UNITS}
        self.records = []
        self.stop = None
        self.kw = kw

    def user(self, name, unit):
        def h(I, f, args, kwargs):
            p = args[0]
            g, d, s = (self.sc.attr(p, x) for x in ("gamma", "densities", "density_subgroups"))
            self.calls.append((name, g, d, s))
            return self.value(name, g, self.state(), d, s, unit)
        return UserFunc(name, handler=h)

    def state(self):
        """the distribution which the emission region has now"""
        ne = self.sc.attr(self.blob, "n_e")
        if ne is self.first:
            return None
        if ne.cls.name == "EmptyDistribution":
            return self.sc.attr(ne, "gamma_min"), self.sc.attr(ne, "gamma_max")
        return self.sc.attr(ne, "gamma_input"), self.sc.attr(ne, "n_input")

    def value(self, name, g, state, d, s, unit):
        """the unknown value of the user's function: any function of the Lorentz factor and of the state of the emission region"""
        key = ["start"] if state is None else [whole(x) for x in state]
        key = key + [whole(d), whole(s)] if self.stateful else []
        un = U(unit)
        args = ("user:" + name, al.canon(g.node)) + tuple(key)
        v = al.fn(*args, pos=name in ("gain", "loss"))
        if name in ("gain", "loss"):
            # energy is gained or lost everywhere
            v = v if name == "gain" else al.sub(al.ZERO, v)
        return Num(al.mul2(v, unit_scale(un)), un, g.dims, "f")

    def build(self, **kw):
        sc = self.sc
        k = {**self.kw, **kw}
        fns = {x: sc.I.new_dict(dict(self.fns[x])) for x in UNITS}
        self.key = lambda n: n
        form = k.pop("form", "dict")
        if form != "dict":
            self.key = lambda n: f"<function {n}>"
            fns = {x: sc.I.new_list(list(self.fns[x].values())) if form == "list" else next(iter(self.fns[x].values()), None) for x in UNITS}
        if k.pop("callback", False):
            def cb(I, f, args, kwargs):
                self.records.append((args[0], self.sc.attr(self.blob, "n_e"), I.st))
                if self.stop and len(self.records) == self.stop[0]:
                    raise self.stop[1]()
                return None
            k["distribution_change_callback"] = UserFunc("callback", handler=cb)
        return sc.call(TE + "TimeEvolution", self.blob, k.pop("total", sc.q("T", "s")), fns["energy"], rel_injection_functions=fns["rel"],
                       abs_injection_functions=fns["abs"], **k)


class Reference:
    """what the documentation says the steps do, for the same unknown functions"""

    def __init__(self, ev, gamma, groups=None, frac=None, heun=False, bounds=None, case=None):
        self.bounds, self.case = bounds, case
        self.ev, self.sc = ev, ev.sc
        self.heun = heun
        self.gamma = gamma
        self.n = ev.n0(gamma)
        names = [n for k in UNITS for n in ev.names[k]]
        self.groups = groups if groups is not None else [names]
        one = Num(al.ONE, None, gamma.dims, "f")
        self.frac = frac if frac is not None else [one] + [one.replace(node=al.ZERO)] * (len(self.groups) - 1)
        self.current = None  # (gamma, n) of the distribution of the emission region
        self.elapsed = sc_q0(self.sc)

    def S(self, f, *a):
        return self.sc.spec("evolution:" + f, *a)

    def op(self, a, o, b):
        return self.sc.op(a, o, b)

    def stack_frac(self, frac):
        return self.sc.np("array", self.sc.I.new_list(list(frac)))

    def rate(self, name, kind, gamma, n=None, frac=None, current=0):
        n = self.n if n is None else n
        frac = self.frac if frac is None else frac
        return self.ev.value(name, gamma, self.current if current == 0 else current, n, self.stack_frac(frac), UNITS[kind])

    def upper(self, gamma):
        return self.op(gamma, "*", self.op(number(1), "+", number("1/10000")))

    def total(self, kind, gamma, n, frac, current):
        """per group: sum over its functions"""
        out = []
        for g in self.groups:
            r = Num(al.ZERO, U(UNITS[kind]), gamma.dims, "f")
            for name in self.ev.names[kind]:
                if name in g:
                    r = self.op(r, "+", self.rate(name, kind, gamma, n, frac, current))
            out.append(r)
        return out

    def rates(self):
        g, n, f, c = self.gamma, self.n, self.frac, self.current
        lo, up = self.total("energy", g, n, f, c), self.total("energy", self.upper(g), n, f, c)
        inj = list(zip(self.total("rel", g, n, f, c), self.total("abs", g, n, f, c)))
        return list(zip(lo, up)), inj

    def step(self, h):
        L = self.sc.I.new_list
        rates, inj = self.rates()

        def again(I, f, args, kwargs):
            g, up, tot, fr = args
            fr = list(I.iterate(fr))
            cur = self.S("ordered", g, tot, L([]))[:2]
            lo = self.total("energy", g, tot, fr, cur)
            hi = self.total("energy", up, tot, fr, cur)
            return L(list(zip(lo, hi)))
        g, up, tot, fr = self.S("advance", self.gamma, self.n, L(self.frac), L(rates), L(inj), h, self.heun, UserFunc("again", handler=again))
        g, tot, fr = self.S("ordered", g, tot, fr)
        self.current = (g, tot)
        if self.bounds is not None:
            removed, low, up = self.case
            if removed:
                g, tot, fr = self.S("within", g, tot, fr, *self.bounds)
            if low:
                g, tot, fr = self.S("filled_low", g, tot, fr, self.bounds[0])
            if up:
                g, tot, fr = self.S("filled_up", g, tot, fr, self.bounds[1])
        self.gamma, self.n, self.frac = g, tot, list(self.sc.I.iterate(fr))
        self.elapsed = self.op(self.elapsed, "+", h)


def sc_q0(sc):
    return Num(al.ZERO, U("s"), (), "f")
