"""Effect analysis on the abstract heap: no public call changes the arrays, lists, dictionaries
or objects it was given, nor the state of the package (constants of the modules and classes,
defaults of the arguments), and objects created one after the other share nothing that can
be changed through one of them."""
from fitmodels import *
from evol import *
from vsa.values import *

MINIMUM = 400
RULE = "what was handed over is left as it was"
RULE2 = "state of the package is left as it was"
RULE3 = "objects created independently share no mutable state"
SKIP = {"plot", "plot_sed", "print_lines_list"}


class Held:
    """everything that can be reached from some values"""

    def __init__(self, sc, roots):
        self.sc, self.things = sc, {}
        for name, v in roots:
            self.visit(name, v)

    def visit(self, path, v):
        I = self.sc.I
        if isinstance(v, Num):
            if v.alias:
                self.things.setdefault(("n",) + tuple(sorted(v.alias)), (path, v, I.cur(v).node))
        elif isinstance(v, (tuple, list)):
            for k, x in enumerate(v):
                self.visit(f"{path}[{k}]", x)
        elif isinstance(v, PhiVal):
            self.visit(path, v.a)
            self.visit(path, v.b)
        elif isinstance(v, Bound):
            self.visit(path + " self", v.self)
        elif isinstance(v, (Obj, ListV, DictV, SetV)):
            key = ("h", v.loc)
            if key in self.things:
                return
            c = I.st.heap.get(v.loc)
            if isinstance(c, dict):
                c = dict(c)
                # private attributes are the business of the object (C12 decides what can be seen of them)
                vis = {k: x for k, x in c.items() if not (isinstance(v, Obj) and isinstance(k, str) and k.startswith("_"))}
                self.things[key] = (path, v, vis)
                for k, x in c.items():
                    self.visit(f"{path}.{k}" if isinstance(v, Obj) else f"{path}[{k!r}]", x)
            elif isinstance(c, (list, tuple)):
                self.things[key] = (path, v, list(c))
                for k, x in enumerate(c):
                    self.visit(f"{path}[{k}]", x)
        elif isinstance(v, (StaticV, ClsM)):
            self.visit(path, v.f)
        elif isinstance(v, FuncV):
            key = ("f", id(v))
            if key not in self.things:
                self.things[key] = (path, v, None)
                for k, x in enumerate(list(v.defaults or ())):
                    self.visit(f"default {k} of {path}", x)
                for k, x in (v.kwdefaults or {}).items():
                    self.visit(f"default {k} of {path}", x)
        elif isinstance(v, ClassV) and v.module is not None and v.module.name.startswith("agnpy"):
            key = ("c", id(v))
            if key not in self.things:
                self.things[key] = (path, v, {k: x for k, x in v.ns.items() if not k.startswith("_")})
                for k, x in self.things[key][2].items():
                    self.visit(f"{path}.{k}", x)

    def changed(self):
        """description of the first difference with the present state"""
        I = self.sc.I
        for key, (path, v, old) in self.things.items():
            if key[0] == "n":
                new = I.cur(v)
                if new.node != old and differs(new, v.replace(node=old)):
                    return f"values of {path} changed in place"
                continue
            if key[0] == "f":
                continue
            new = v.ns if key[0] == "c" else I.st.heap.get(v.loc)
            if isinstance(old, dict):
                for k, x in old.items():
                    if k not in new:
                        return f"{k} of {path} deleted"
                    if differs(new[k], x):
                        return f"{k} of {path} changed"
                # (what an object adds to itself is not seen by anyone else)
                extra = [k for k in new if k not in old]
                if extra and not isinstance(v, (ClassV, Obj)):
                    return f"{extra[0]} added to {path}"
            else:
                if len(new) != len(old) or any(differs(x, y) for x, y in zip(new, old)):
                    return f"elements of {path} changed"
        return None


def differs(a, b):
    if a is b:
        return False
    if isinstance(a, Num) or isinstance(b, Num) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a != b if not isinstance(a, Num) and not isinstance(b, Num) else compare(a, b) is not None
    if isinstance(a, (Obj, ListV, DictV, SetV)) and type(a) is type(b):
        return a.loc != b.loc
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) != len(b) or any(differs(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return type(a) is not type(b) or a != b
    return False


def package(sc):
    """what the modules of the package hold"""
    out = []
    for name, m in list(sc.I.modules.items()):
        if isinstance(m, ModuleV) and name.startswith("agnpy"):
            for k, v in sc.I.hget(m.loc).items():
                if not k.startswith("_") and not isinstance(v, ModuleV):
                    out.append((f"{name}.{k}", v))
    return out


def decide(chk, sc, i, inputs, thunk, w, must=False):
    with Instance(chk, i):
        a, b = Held(sc, inputs), Held(sc, package(sc))
        try:
            thunk()
        except AbsRaise as x:
            if must:
                raise
            # (the changes made before the exception count as well)
            chk.notes.append(f"{i}: {x}")
        r = a.changed()
        if r:
            chk.violate(i, RULE, r, w)
        else:
            chk.ok(i, RULE)
        r = b.changed()
        if r:
            chk.violate(i + " (package)", RULE2, r, w)
        else:
            chk.ok(i + " (package)", RULE2)


# ------------------------------------------------------------ arguments by name
def values(sc):
    n = ("N",)
    V = dict(
        nu=sc.q("nu", "Hz", n), gamma=sc.arr("gamma_arr", "GA"), z=sc.num("z"), d_L=sc.q("d_L", "cm"), delta_D=sc.num("delta_D"), B=sc.q("B", "G"),
        R_b=sc.q("R_b", "cm"), r=sc.q("r", "cm"), mu_s=sc.num("mu_s", False), mu=sc.arr("mu_arr", "MU", False), phi=sc.arr("phi_arr", "PHI"),
        epsilon_0=sc.num("epsilon_0"), L_0=sc.q("L_0", "erg s-1"), u_0=sc.q("u_0", "erg cm-3"), M_BH=sc.q("M_BH", "g"), L_disk=sc.q("L_disk", "erg s-1"),
        eta=sc.num("eta"), R_in=sc.q("R_in", "cm"), R_out=sc.q("R_out", "cm"), xi_line=sc.num("xi_line"), epsilon_line=sc.num("epsilon_line"),
        R_line=sc.q("R_line", "cm"), xi_dt=sc.num("xi_dt"), epsilon_dt=sc.num("epsilon_dt"), R_dt=sc.q("R_dt", "cm"), T_dt=sc.q("T_dt", "K"), L_dt=sc.q("L_dt", "erg s-1"),
        m_dot=sc.q("m_dot", "g s-1"), R_in_tilde=sc.num("R_in_tilde"), R_out_tilde=sc.num("R_out_tilde"), r_tilde=sc.num("r_tilde"), R_tilde=sc.arr("R_tilde", "RT"),
        R=sc.q("R", "cm", ("RR",)), s=sc.arr("s", "SS"), x=sc.arr("x", "XX"), y=sc.arr("y", "XX"), B_cgs=sc.q("B_cgs", U("cm-1 g s-2") ** 0.5), epsilon=sc.arr("epsilon", "EP"),
        tau=sc.arr("tau", "TT"), q=sc.arr("q", "QQ"), gamma_e=sc.arr("gamma_e", "QQ"), epsilon_s=sc.arr("epsilon_s", "EP"), R_re=sc.q("R_re", "cm"),
        phi_re=sc.arr("phi_re", "PHI"), mu_re=sc.arr("mu_re", "MU", False), u=sc.q("u", "cm", ("UU",)), M=sc.q("M_BH", "g"), nu_min=sc.q("nu_min", "Hz"), nu_max=sc.q("nu_max", "Hz"),
        epsilon_prime=sc.arr("epsilon_prime", "EP"), sed_synch_lab_frame=sc.q("sed", "erg cm-2 s-1", ("EP",)), gamma_low=sc.num("gamma_low"), gamma_up=sc.num("gamma_up"),
        n_e=dist(sc, "PowerLaw"), k_e=sc.q("k", "cm-3"), p=sc.num("p"), gamma_min=sc.num("gamma_min"), gamma_max=sc.num("gamma_max"),
        l_size=number(50), mu_size=number(100), phi_size=number(50), Gamma=sc.num("Gamma3"), theta_s=sc.q("theta_s", "deg"))
    return V


def arguments(sc, f, V, bound):
    """(positional arguments, names) of a function, from the names of its parameters; None when one is not known"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    nd = len(a.defaults)
    args, held = [], []
    kw = {}
    for k, n in enumerate(pos):
        required = k < len(pos) - nd
        if n in V and (required or n in ("gamma", "mu", "phi")):
            v = V[n]
            held.append((n, v))
            if required and not kw:
                args.append(v)
            else:
                kw[n] = v
        elif required:
            return None
    if a.vararg:
        if a.vararg.arg != "args":
            held += [("array 1", V["mu"]), ("array 2", V["phi"])]
            args += [V["mu"], V["phi"]]
        elif len(args) == len([n for n in pos if n in V and pos.index(n) < len(pos) - nd]):
            ps = sc.attr(V["n_e"], "parameters")
            args += list(ps) if isinstance(ps, (tuple, list)) else sc.I.hget(ps.loc)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg in V and x.arg in ("gamma", "mu", "phi", "epsilon_s"):
            kw[x.arg] = V[x.arg]
            held.append((x.arg, V[x.arg]))
        elif d is None:
            return None
    return args, kw, held


MODULES = ["synchrotron.synchrotron", "compton.kernels", "absorption.targets_absorption", "utils.conversion", "utils.geometry", "utils.math"]


def functions(chk):
    sc = Scenario(chk, loglog=False)
    for m in MODULES:
        V = {n: sc.q(n, v.unit, ("N",)) if isinstance(v, Num) and v.dims else v for n, v in values(sc).items()}
        for name, f in list(sc.ns("agnpy." + m).items()):
            if isinstance(f, FuncV) and f.module.name == "agnpy." + m and not name.startswith("_") and name not in SKIP:
                a = arguments(sc, f, V, False)
                if name == "axes_reshaper":
                    X = values(sc)
                    a = ([X["mu"], X["phi"], X["gamma"]], {}, [("mu", X["mu"]), ("phi", X["phi"]), ("gamma", X["gamma"])])
                if a is not None:
                    decide(chk, sc, f"{m}.{name}", a[2], lambda: sc.I.call(f, a[0], a[1]), [sc.where(f)])
    chk.absorb(sc)


def methods(chk, build, label, over=None, only=None):
    """every public method and property of an object; none of those that set something"""
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    V = values(sc)
    o, roots = build(sc)
    V.update(over(sc, o) if over else {})
    seen = set()
    for k in o.cls.mro():
        for name, f in list(k.ns.items()):
            if name in seen or name.startswith("_") and name != "__call__" or name in SKIP or name.startswith("set_"):
                continue
            seen.add(name)
            i = f"{label}.{name}"
            w = [sc.where(o, name)]
            if isinstance(f, PropV):
                decide(chk, sc, i, [("the object", o)] + roots, lambda: sc.attr(o, name), w)
                continue
            static = isinstance(f, StaticV)
            g = f.f if isinstance(f, (StaticV, ClsM)) else f
            if not isinstance(g, FuncV) or isinstance(f, ClsM):
                continue
            a = arguments(sc, g, V, not static)
            if a is not None:
                decide(chk, sc, i, a[2] + [("the object", o)] + roots, lambda: sc.I.call(sc.attr(o, name) if name != "__call__" else o, a[0], a[1]), w)
    chk.absorb(sc)


def region(sc, **kw):
    return blob(sc, dist(sc, "PowerLaw"), dist(sc, "PowerLaw", "_p", mass=models.CONSTANTS["m_p"]), **kw)


def process(name):
    def build(sc):
        b = region(sc)
        if name == "Synchrotron":
            return sc.call("agnpy.synchrotron:Synchrotron", b, ssa=True), [("the region", b)]
        if name == "ProtonSynchrotron":
            return sc.call("agnpy.synchrotron:ProtonSynchrotron", b), [("the region", b)]
        if name == "SynchrotronSelfCompton":
            return sc.call("agnpy.compton:SynchrotronSelfCompton", b, ssa=True), [("the region", b)]
        if name == "SpectralConstraints":
            return sc.call("agnpy.constraints:SpectralConstraints", b), [("the region", b)]
        t = target(sc, name.split()[-1])
        if name.startswith("Absorption"):
            r = sc.q("r", "cm")
            return sc.call("agnpy.absorption:Absorption", t, r=r, z=sc.num("z_abs"), mu_s=sc.num("mu_s", False) if name.split()[-1] != "SSDisk" else 1), [("the target", t), ("r", r)]
        return sc.call("agnpy.compton:ExternalCompton", b, t, sc.q("r", "cm")), [("the region", b), ("the target", t)]
    return build


def evolution(chk, method, groups, form):
    """the region itself is changed (its distribution), nothing else of what was handed over"""
    i = f"time evolution, {method}{', groups' if groups else ''}, functions in a {form}"
    with Instance(chk, i):
        ev = Evolution(chk, state=False)
        sc = ev.sc
        L = sc.I.new_list
        g, T, dt = sc.arr("g", "N"), sc.q("dt", "h"), sc.q("dt", "h")
        names = ev.names["energy"] + ev.names["rel"] + ev.names["abs"]
        fns = {x: sc.I.new_dict(dict(ev.fns[x])) if form == "dict" else L(list(ev.fns[x].values())) for x in UNITS}
        kw = dict(initial_gamma_array=g, step_duration=dt, merge_bins_closer_than=None, method=method)
        if groups:
            kw["subgroups"] = L([L(names[:1]), L(names[1:])]) if form == "dict" else L([L([f"<function {n}>" for n in x]) for x in (names[:1], names[1:])])
            fr = sc.arr("fr", "N")
            kw["subgroups_initial_density"] = sc.np("array", L([fr, sc.op(number(1), "-", fr)]))
        held = [("the region", ev.blob), ("the distribution before", ev.first), ("the total time", T), ("energy change functions", fns["energy"]),
                ("relative injection functions", fns["rel"]), ("absolute injection functions", fns["abs"])] + list(kw.items())
        old = Held(sc, [("parameters of the distribution before", sc.attr(ev.first, "parameters"))])

        def go():
            o = sc.call(TE + "TimeEvolution", ev.blob, T, fns["energy"], rel_injection_functions=fns["rel"], abs_injection_functions=fns["abs"], **kw)
            sc.m(o, "evaluate")
        decide(chk, sc, i, held, go, [sc.where(TE + "TimeEvolution", "evaluate")], must=True)
        chk.absorb(sc)


def extragalactic(chk):
    sc = Scenario(chk)
    sc.I.table_axes = {("SPECTRA", "INTPSPEC"): ("ENERGIES",)}
    for un in ("Hz", "eV"):
        with Instance(chk, f"EBL, {un}"):
            o = sc.call("agnpy.absorption:EBL")
            nu = sc.q("nu", un, ("N",))
            decide(chk, sc, f"EBL.absorption, {un}", [("nu", nu), ("the object", o)], lambda: sc.m(o, "absorption", nu, sc.num("z")), [sc.where(o, "absorption")], must=True)
    chk.absorb(sc)


def defaults(chk):
    """objects created without (some of) the arguments"""
    sc = Scenario(chk)
    T = "agnpy.targets:"

    def mk():
        b = sc.call("agnpy.emission_regions:Blob")
        out = {"Blob": b}
        d = sc.call("agnpy.spectra:PowerLaw")
        out["PowerLaw"] = d
        for n in list(ANALYTIC)[1:]:
            out[n] = sc.call("agnpy.spectra:" + n)
        out["EmptyDistribution"] = sc.call("agnpy.spectra:EmptyDistribution")
        out["CMB"] = sc.call(T + "CMB", sc.num("z"))
        out["PointSourceBehindJet"] = target(sc, "PointSourceBehindJet")
        out["SSDisk"] = target(sc, "SSDisk")
        for l in ("Lyalpha", "Halpha"):
            out["SphericalShellBLR " + l] = sc.call(T + "SphericalShellBLR", sc.q("L", "erg s-1"), sc.num("xi"), l, sc.q("R", "cm"))
        out["RingDustTorus"] = sc.call(T + "RingDustTorus", sc.q("L", "erg s-1"), sc.num("xi"), sc.q("T", "K"))
        out["Synchrotron"] = sc.call("agnpy.synchrotron:Synchrotron", blob(sc))
        out["SynchrotronSelfCompton"] = sc.call("agnpy.compton:SynchrotronSelfCompton", blob(sc))
        for n in TARGETS:
            out["ExternalCompton " + n] = sc.call("agnpy.compton:ExternalCompton", blob(sc), target(sc, n), sc.q("r", "cm"))
        for n in TARGETS[1:]:
            out["Absorption " + n] = sc.call("agnpy.absorption:Absorption", target(sc, n), sc.q("r", "cm"))
        return out

    with Instance(chk, "objects created twice"):
        first, second = mk(), mk()
        for n in first:
            i = f"two objects, {n}"
            a, b = Held(sc, [("the object", first[n])]), Held(sc, [("the object", second[n])])
            common = [a.things[k][0] for k in a.things if k in b.things and k[0] == "h"]
            w = [sc.where(first[n], "__init__")]
            if common:
                chk.violate(i, RULE3, f"{common[0]} is the same object for both", w)
            else:
                chk.ok(i, RULE3)
    # and by what can be seen: what is set on one of them does not show in the other
    for name, mk_, sets in (("Blob", lambda: sc.call("agnpy.emission_regions:Blob"), ["n_e.k", "n_e.p", "n_e.gamma_max", "R_b", "B", "z", "delta_D"]),):
        for s in sets:
            i = f"{name}: {s} set on one of two"
            with Instance(chk, i):
                x, y = mk_(), mk_()
                before = sc.attr(y, s)
                new = sc.q("new", "cm-3") if s == "n_e.k" else sc.q("new", {"R_b": "cm", "B": "G"}.get(s))
                sc.set(x, s, new)
                expect_equal(chk, sc, i, RULE3, sc.attr(y, s), before, [sc.where(x, "__init__")])
                expect_equal(chk, sc, i + ", created later", RULE3, sc.attr(mk_(), s), before, [sc.where(x, "__init__")])
    chk.absorb(sc)


def creation(chk):
    """constructors and their arguments"""
    sc = Scenario(chk)
    for d in ("PowerLaw", "BrokenPowerLaw", "InterpolatedDistribution"):
        for c, args in (("from_total_density", (sc.q("n", "cm-3"),)), ("from_total_energy_density", (sc.q("u_", "erg cm-3"),)), ("from_density_at_gamma_1", (sc.q("n1", "cm-3"),)),
                        ("from_total_energy", (sc.q("W", "erg"), sc.q("V", "cm3")))):
            if d == "InterpolatedDistribution":
                break
            kw = {p: v for p, v in params(sc, d).items() if p != "k"}
            decide(chk, sc, f"{d}.{c}", list(kw.items()) + [(f"argument {k}", v) for k, v in enumerate(args)],
                   lambda: sc.I.call(sc.I.getattr(sc.get("agnpy.spectra:" + d), c), list(args) + [models.CONSTANTS["m_e"]], kw), [sc.where("agnpy.spectra:" + d, c)])
    g, n = sc.arr("gamma_in", "IN"), sc.arr("n_in", "IN", unit="cm-3")
    decide(chk, sc, "InterpolatedDistribution", [("gamma", g), ("n", n)], lambda: sc.call("agnpy.spectra:InterpolatedDistribution", g, n), [sc.where("agnpy.spectra:InterpolatedDistribution", "__init__")])
    b = region(sc)
    for n, mk_ in (("Synchrotron", lambda: sc.call("agnpy.synchrotron:Synchrotron", b, ssa=True)), ("ProtonSynchrotron", lambda: sc.call("agnpy.synchrotron:ProtonSynchrotron", b)),
                   ("SynchrotronSelfCompton", lambda: sc.call("agnpy.compton:SynchrotronSelfCompton", b)), ("SpectralConstraints", lambda: sc.call("agnpy.constraints:SpectralConstraints", b))):
        decide(chk, sc, f"{n} created", [("the region", b)], mk_, [sc.where(b, "__init__")])
    for t in TARGETS:
        with Instance(chk, t):
            x = target(sc, t)
            r = sc.q("r", "cm")
            decide(chk, sc, f"ExternalCompton on {t} created", [("the region", b), ("the target", x), ("r", r)], lambda: sc.call("agnpy.compton:ExternalCompton", b, x, r), [sc.where("agnpy.compton:ExternalCompton", "__init__")])
            decide(chk, sc, f"Absorption on {t} created", [("the target", x), ("r", r)], lambda: sc.call("agnpy.absorption:Absorption", x, r=r), [sc.where("agnpy.absorption:Absorption", "__init__")])
    chk.absorb(sc)


def fits(chk):
    for scen in ("ssc", "ec blr dt"):
        for backend in ("gammapy", "sherpa"):
            sc = fitscenario(chk)
            processes(sc)
            n_e = dist(sc, "BrokenPowerLaw")
            w = where(sc, scen, backend)
            with Instance(chk, f"{backend} {scen} model"):
                decide(chk, sc, f"{backend} {scen} model created", [("the distribution", n_e)], lambda: model(sc, scen, n_e, True, backend), w)
                m = model(sc, scen, n_e, True, backend)
                x = sc.arr("E", "N")
                E_ = sc.q("E", "eV", ("N",))
                decide(chk, sc, f"{backend} {scen} model evaluated", [("the distribution", n_e), ("the energies", E_ if backend == "gammapy" else x), ("the model", m)], lambda: sed(sc, m, backend, E_, x), w)
                b = region(sc)
                bl, dt, dk = target(sc, "SphericalShellBLR"), target(sc, "RingDustTorus"), target(sc, "SSDisk")
                r = sc.q("r", "cm")
                decide(chk, sc, f"{backend} {scen} model set from a region", [("the region", b)], lambda: sc.m(m, "set_emission_region_parameters_from_blob", *([b] if scen == "ssc" else [b, r])), w)
                if scen != "ssc":
                    decide(chk, sc, f"{backend} {scen} model set from targets", [("disk", dk), ("blr", bl), ("dt", dt)], lambda: sc.m(m, "set_targets_parameters_from_targets", dk, blr=bl, dt=dt), w)
            chk.absorb(sc)


def run(chk):
    jobs = [functions, defaults, creation, fits, extragalactic]
    jobs += [lambda c, m=m, g=g, f=f: evolution(c, m, g, f) for m in ("euler", "heun") for g in (False, True) for f in ("dict", "list")]
    for d in ALL_DISTS + ["EmptyDistribution"]:
        jobs.append(lambda c, d=d: methods(c, lambda sc: (dist(sc, d), []), d, over=lambda sc, o: vector(sc, o)))
    jobs.append(lambda c: methods(c, lambda sc: (region(sc), []), "Blob"))
    for n in ["Synchrotron", "ProtonSynchrotron", "SynchrotronSelfCompton", "SpectralConstraints"]:
        jobs.append(lambda c, n=n: methods(c, process(n), n, over=lambda sc, o: dict(dt=target(sc, "RingDustTorus")) if n == "SpectralConstraints" else {}))
    for t in TARGETS:
        jobs.append(lambda c, t=t: methods(c, lambda sc: (target(sc, t), []), t, over=lambda sc, o: dict(blob=region(sc))))
        jobs.append(lambda c, t=t: methods(c, process("ExternalCompton on " + t), "ExternalCompton on " + t))
        if t != "CMB":
            jobs.append(lambda c, t=t: methods(c, process("Absorption on " + t), "Absorption on " + t, over=lambda sc, o: dict(blob=region(sc))))
    chk.parallel(jobs)


def vector(sc, o):
    """the parameters of a distribution under their names"""
    out = {}
    for n in ("k", "norm", "p", "p1", "p2", "q", "gamma_b", "gamma_c", "gamma_0", "gamma_min", "gamma_max"):
        try:
            out[n] = sc.attr(o, n)
        except (AbsRaise, Unsupported):
            pass
    return out
