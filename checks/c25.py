"""Value-flow analysis of the parameters of the fit models: construction from a particle
distribution, setting from a blob and from the targets, agreement of the two backends,
and the choice of the backend."""
from fitmodels import *

MINIMUM = 3294
R0 = "parameters carry the values of the object they were read from"
R1 = "both backends declare the same parameters"
R2 = "unsupported choice raises"
R3 = "the object is left unchanged"
BACKENDS = ("gammapy", "sherpa")


def run(chk):
    chk.parallel([(lambda c, d=d, s=s: one(c, d, s)) for d in ALL_DISTS for s in ("ssc", "ec blr", "ec dt", "ec blr dt")]
                 + [(lambda c, s=s: roundtrip(c, s)) for s in ("ssc", "ec blr", "ec dt", "ec blr dt")] + [dispatch, declared])


def listed(sc, m, backend):
    """parameters of the model: name -> parameter"""
    p = sc.attr(m, "parameters") if backend == "gammapy" else sc.attr(m, "pars")
    out = []
    ps = sc.I.hget(sc.attr(p, "_parameters").loc) if backend == "gammapy" else p
    for x in ps:
        out.append((sc.attr(x, "name"), x))
    return out


def one(chk, d, scen):
    sc = fitscenario(chk)
    n_e = dist(sc, d)
    before = dict(sc.I.hget(n_e.loc))
    tab = {}
    for backend in BACKENDS:
        i = f"{backend} {scen} model of {d}"
        w = where(sc, scen, backend) + [sc.where("agnpy.fit.core:get_spectral_parameters_from_n_e"), sc.where("agnpy.fit.core:make_emission_region_parameters_dict"),
                                        sc.where("agnpy.fit.core:make_targets_parameters_dict")]
        with Instance(chk, i):
            mk = sc.mark()
            m = model(sc, scen, n_e, False, backend)
            no_raises(chk, sc, i, mk)
            ps = listed(sc, m, backend)
            got = [n for n, _ in ps]
            want = names(d) + list(plain(scen)) + (["norm"] if backend == "gammapy" else [])
            if sorted(got) != sorted(want):
                chk.violate(i, R1, f"parameters {got} instead of {want}", w)
                raise Stop
            chk.ok(i, R1)
            tab[backend] = dict(ps)
            # values read from the distribution
            for p, n in zip(SPEC[d], names(d)):
                v = value(sc, m, n, backend)
                if n != p:
                    v = ten(sc, v)
                if p == "k":
                    v = unit(sc, v, "cm-3")
                expect_equal(chk, sc, f"{i}: {n}", R0, v, sc.attr(n_e, p), w, check_unit=p == "k")
            # the list given to calc / evaluate is made of the attributes of the model
            same = all(par(sc, m, n, backend) is x or par(sc, m, n, backend).loc == x.loc for n, x in ps)
            if same:
                chk.ok(i + ": one object per parameter", R1)
            else:
                chk.violate(i + ": one object per parameter", R1, "the attribute of the model is not the parameter in its list", w)
            if backend == "gammapy":
                for sel, wanted in (("spectral_parameters", names(d)), ("emission_region_parameters", [n for n in list(REGION) + list(REGION_EC) if n in want]),
                                    ("targets_parameters", [n for n in list(DISK) + list(BLR) + list(DT) if n in want])):
                    if sel == "targets_parameters" and scen == "ssc":
                        continue
                    s = [sc.attr(x, "name") for x in sc.I.hget(sc.attr(sc.attr(m, sel), "_parameters").loc)]
                    if sorted(s) == sorted(wanted):
                        chk.ok(f"{i}: {sel}", "selection of the parameters")
                    else:
                        chk.violate(f"{i}: {sel}", "selection of the parameters", f"{s} instead of {wanted}", [sc.where(m, sel)])
        after = sc.I.hget(n_e.loc)
        j = f"{i}: distribution unchanged"
        if set(after) == set(before) and all(after[k] is before[k] or compare(after[k], before[k]) is None for k in before):
            chk.ok(j, R3)
        else:
            chk.violate(j, R3, f"attributes {sorted(set(before) ^ set(after)) or 'changed'}", w)
    if len(tab) == 2:
        for n in names(d) + list(plain(scen)):
            a, b = tab["gammapy"].get(n), tab["sherpa"].get(n)
            i = f"{scen} model of {d}: {n}"
            w = [sc.where("agnpy.fit.core:Parameter", "to_gammapy_parameter"), sc.where("agnpy.fit.core:Parameter", "to_sherpa_parameter")]
            with Instance(chk, i):
                for x, y in (("value", "val"), ("min", "min"), ("max", "max"), ("frozen", "frozen")):
                    u_, v_ = sc.attr(a, x), sc.attr(b, y)
                    r = compare(u_, v_) if not isinstance(u_, bool) else (None if u_ is v_ else f"{u_} and {v_}")
                    if r:
                        chk.violate(i + " " + x, R1, f"{x} differs between the backends: {r}", w)
                    else:
                        chk.ok(i + " " + x, R1)
                ua, ub = sc.attr(a, "unit"), U(sc.attr(b, "units") or "")
                wanted = U(dict(plain(scen)).get(n, ""))
                if ua == ub == wanted:
                    chk.ok(i + " unit", R1)
                else:
                    chk.violate(i + " unit", R1, f"units {ua!r} and {ub!r} instead of {wanted!r}", w)
                # constant defaults within the limits
                lo, hi = num_of(sc.attr(a, "min")), num_of(sc.attr(a, "max"))
                v = num_of(sc.attr(a, "value"))
                const_default = n in plain(scen)
                ok = al.const(al.ge0(al.sub(hi.node, lo.node))) == 1
                if const_default:
                    ok = ok and al.const(al.ge0(al.sub(v.node, lo.node))) == 1 and al.const(al.ge0(al.sub(hi.node, v.node))) == 1
                if ok:
                    chk.ok(i + " limits", "minimum <= default <= maximum")
                else:
                    chk.violate(i + " limits", "minimum <= default <= maximum", f"{al.show(lo.node)}, {al.show(v.node)[:100]}, {al.show(hi.node)}",
                                [sc.where("agnpy.fit.core:make_emission_region_parameters_dict" if n in REGION or n in REGION_EC else "agnpy.fit.core:make_targets_parameters_dict" if const_default else "agnpy.fit.core:get_spectral_parameters_from_n_e")])
    chk.absorb(sc)


def roundtrip(chk, scen):
    """parameters set from a blob and from targets reproduce the physical values, and the model the SED at these values"""
    sc = fitscenario(chk)
    processes(sc)
    n_e = dist(sc, "BrokenPowerLaw")
    T = SCEN[scen]
    for unit_set in ("cgs", "other"):
        o = unit_set == "other"
        with Instance(chk, f"{scen}: objects in {unit_set} units"):
            b = blob(sc, n_e, R_b=sc.q("R_b", "pc" if o else "cm"), B=sc.q("B", "mG" if o else "G"))
            r = sc.q("r", "pc" if o else "cm")
            disk = sc.call("agnpy.targets:SSDisk", sc.q("M_BH", "kg" if o else "g"), sc.q("L_disk", "W" if o else "erg s-1"), sc.num("eta"), sc.q("R_in", "km" if o else "cm"), sc.q("R_out", "pc" if o else "cm"))
            blr = sc.call("agnpy.targets:SphericalShellBLR", sc.q("L_blr", "erg s-1"), sc.num("xi_line"), "Lyalpha", sc.q("R_line", "pc" if o else "cm"))
            dt = sc.call("agnpy.targets:RingDustTorus", sc.q("L_dt", "erg s-1"), sc.num("xi_dt"), sc.q("T_dt", "K"), sc.q("R_dt", "pc" if o else "cm"))
            P = dict(z=sc.attr(b, "z"), delta_D=sc.attr(b, "delta_D"), B=sc.attr(b, "B"), t_var=sc.attr(b, "t_var"))
            if T is not None:
                P.update(mu_s=sc.attr(b, "mu_s"), r=r, L_disk=sc.attr(disk, "L_disk"), M_BH=sc.attr(disk, "M_BH"), m_dot=sc.attr(disk, "m_dot"), R_in=sc.attr(disk, "R_in"), R_out=sc.attr(disk, "R_out"))
                if "blr" in T:
                    P.update(xi_line=sc.attr(blr, "xi_line"), lambda_line=sc.attr(blr, "lambda_line"), R_line=sc.attr(blr, "R_line"))
                if "dt" in T:
                    P.update(xi_dt=sc.attr(dt, "xi_dt"), T_dt=sc.attr(dt, "T_dt"), R_dt=sc.attr(dt, "R_dt"))
            for backend in BACKENDS:
                i = f"{backend} {scen} model from objects in {unit_set} units"
                with Instance(chk, i):
                    mk = sc.mark()
                    m = model(sc, scen, n_e, True, backend)
                    w = [sc.where(m, "set_emission_region_parameters_from_blob")]
                    untouched = {}
                    if T is None:
                        sc.m(m, "set_emission_region_parameters_from_blob", b)
                    else:
                        w.append(sc.where(m, "set_targets_parameters_from_targets"))
                        sc.m(m, "set_emission_region_parameters_from_blob", b, r)
                        kw = {}
                        if "blr" in T:
                            kw["blr"] = blr
                        if "dt" in T:
                            kw["dt"] = dt
                        untouched = {n: value(sc, m, n, backend) for n in plain(scen) if n in BLR or n in DT}
                        sc.m(m, "set_targets_parameters_from_targets", disk)
                        for n, v in untouched.items():
                            expect_equal(chk, sc, f"{i}: {n} kept when its target is not given", R0, value(sc, m, n, backend), v, w)
                        sc.m(m, "set_targets_parameters_from_targets", disk, **kw)
                    no_raises(chk, sc, i, mk)
                    for n, un in plain(scen).items():
                        log = n.startswith("log10_")
                        v = value(sc, m, n, backend)
                        v = unit(sc, ten(sc, v), LOGUNIT[n]) if log else unit(sc, v, un or None)
                        expect_equal(chk, sc, f"{i}: {n}", R0, v, P[n[6:] if log else n], w)
                    E_ = sc.op(sc.arr("E", "N"), "*", U("eV"))
                    args = [sc.attr(n_e, p) for p in SPEC["BrokenPowerLaw"]]

                    def values():
                        got = sed(sc, m, backend, E_, sc.arr("E", "N"))
                        want = sc.spec("fit:total", E_, n_e, sc.I.new_list(args), True, None if T is None else sc.I.new_list(list(T)), sc.I.new_dict(P), sc.attr(b, "R_b"))
                        if backend == "gammapy":
                            want = sc.op(value(sc, m, "norm", backend), "*", want)
                        return got, want

                    sc.modular = True
                    got, want = values()
                    if compare(got, want) is None:
                        chk.ok(i + ": SED", R0)
                    else:
                        sc.modular = False
                        expect_equal(chk, sc, i + ": SED", R0, *values(), w)
                        sc.modular = True
    chk.absorb(sc)


def declared(chk):
    """a parameter description passes everything it holds to the parameter of either backend"""
    sc = fitscenario(chk)
    K = "agnpy.fit.core:Parameter"
    for frozen in (True, False, None):
        for backend in BACKENDS:
            i = f"{backend} parameter, frozen={frozen}"
            with Instance(chk, i):
                mk = sc.mark()
                v, lo, hi = (sc.num(n) for n in ("value", "lo", "hi"))
                p = sc.call(K, "some_name", v, "cm", lo, hi, *([] if frozen is None else [frozen]))
                w = [sc.where(K, f"to_{backend}_parameter"), sc.where(K, "__init__")]
                r = sc.m(p, "to_gammapy_parameter") if backend == "gammapy" else sc.m(p, "to_sherpa_parameter", "a_model")
                N = dict(name="name", value="value", unit="unit", min="min", max="max", frozen="frozen") if backend == "gammapy" else \
                    dict(name="name", value="val", unit="units", min="min", max="max", frozen="frozen", modelname="modelname")
                want = dict(name="some_name", value=v, unit="cm", min=lo, max=hi, frozen=bool(frozen), modelname="a_model")
                for n, attr in N.items():
                    got = sc.attr(r, attr)
                    if n == "unit":
                        bad = None if U(got) == U("cm") else f"unit {got!r}"
                    elif isinstance(want[n], Num):
                        bad = compare(got, want[n])
                    else:
                        bad = None if got is want[n] or isinstance(got, str) and got == want[n] else f"{got!r} instead of {want[n]!r}"
                    if bad:
                        chk.violate(f"{i}: {n}", R1, bad, w)
                    else:
                        chk.ok(f"{i}: {n}", R1)
    chk.absorb(sc)


def dispatch(chk):
    sc = fitscenario(chk)
    n_e = dist(sc, "PowerLaw")
    M = {"ssc": "agnpy.fit.models:SynchrotronSelfComptonModel", "ec": "agnpy.fit.models:ExternalComptonModel"}
    K = {("ssc", "gammapy"): ("gammapy.modeling.models", "SpectralModel"), ("ec", "gammapy"): ("gammapy.modeling.models", "SpectralModel"),
         ("ssc", "sherpa"): ("sherpa.models.model", "RegriddableModel1D"), ("ec", "sherpa"): ("sherpa.models.model", "RegriddableModel1D")}
    for s, path in M.items():
        w = [sc.where(path, "__new__")]
        extra = [sc.I.new_list(["blr"])] if s == "ec" else []
        for backend in BACKENDS + (None,):
            i = f"{s} model with backend {backend or 'default'}"
            with Instance(chk, i):
                m = sc.call(path, n_e, *extra, **({} if backend is None else dict(backend=backend)))
                mod, base = K[s, backend or "gammapy"]
                k = sc.I.hget(sc.I.import_module(mod).loc)[base]
                if isinstance(m, Obj) and m.cls.issub(k):
                    chk.ok(i, "choice of the backend")
                else:
                    chk.violate(i, "choice of the backend", f"{m!r} is not a {base}", w)
                for ssa in (True, False):
                    m = sc.call(path, n_e, *extra, ssa=ssa, **({} if backend is None else dict(backend=backend)))
                    if sc.attr(m, "ssa") is ssa:
                        chk.ok(f"{i}, ssa={ssa}", "choice of the self-absorption")
                    else:
                        chk.violate(f"{i}, ssa={ssa}", "choice of the self-absorption", f"ssa = {sc.attr(m, 'ssa')!r}", w)
        for bad in ("xspec", "", "Gammapy", None):
            expect_raises(chk, sc, f"{s} model with backend {bad!r}", ("ValueError",), lambda: sc.call(path, n_e, *extra, backend=bad), w, R2)
    for t in ([], ["disk"], ["cmb"]):
        i = f"sherpa ec model with targets {t}"
        with Instance(chk, i):
            m = sc.call(M["ec"], n_e, sc.I.new_list(t), backend="sherpa")
            expect_raises(chk, sc, i, ("ValueError",), lambda: sc.I.call(m, [sc.arr("E", "N")], {}), [sc.where(m, "calc")], R2)
    chk.absorb(sc)
