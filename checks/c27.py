"""Value-flow analysis of the time evolution: runs with an arbitrary electron
distribution, unknown user functions and bins on an axis of unknown length are
followed through a given number of steps, and everything a user can see of
them (the records of the callback, the result, the distribution left in the
emission region) is compared with the documented step (specs/evolution.py)."""
from evol import *

MINIMUM = 600
RULE = "state after the step is the documented function of the state before it"
W = [("evaluate", TE + "TimeEvolution")]


def record(chk, sc, tag, ref, rec, where):
    """fields of a record against the state of the reference"""
    want = {"total_time": ref.elapsed, "gamma": ref.gamma, "density": ref.n}
    for k, w in want.items():
        expect_equal(chk, sc, f"{tag}: {k}", RULE, sc.attr(rec, k), w, where)
    fr = sc.attr(rec, "density_subgroups")
    for i, w in enumerate(ref.frac):
        expect_equal(chk, sc, f"{tag}: fraction of group {i}", RULE, sc.item(fr, i), w, where, check_unit=False)
    for k, f in (("energy", "en_chg_rates"), ("rel", "rel_inj_rates"), ("abs", "abs_inj_rates")):
        d = sc.I.hget(sc.attr(rec, f).loc)
        key = ref.ev.key
        if set(d) != {key(n) for n in ref.ev.names[k]}:
            chk.violate(f"{tag}: names of {f}", RULE, f"{sorted(map(str, d))} instead of {sorted(map(key, ref.ev.names[k]))}", where)
            continue
        for n in ref.ev.names[k]:
            expect_equal(chk, sc, f"{tag}: {f} of {n}", "rates of the record belong to its Lorentz factors and densities", sc.I.cur(d[key(n)]), ref.rate(n, k, ref.gamma), where)


def scenario(chk, tag, steps, last=1, gamma="g", groups=None, frac=None, method="euler", size=None, unit="s", state=True, case=None, expect=None, **kw):
    """steps steps of equal length, the last of which is only the part last of it"""
    names = {k: kw.pop(k) for k in ("energy", "rel", "abs_") if k in kw}
    with Instance(chk, tag):
        ev = Evolution(chk, state=state, decide=bounded(*case) if case else generic_bins, **names)
        sc = ev.sc
        dt = sc.q("dt", unit)
        from fractions import Fraction
        T = sc.op(dt, "*", number(str(steps - 1 + Fraction(last))))
        g0 = sc.arr(gamma, "N", dt=kw.pop("gdt", "f"))
        more = {}
        if groups is not None:
            more["subgroups"] = sc.I.new_list([sc.I.new_list(list(x)) for x in groups])
        fr = None
        if frac:
            fr = [sc.arr(f"f{i}", "N") for i in range(len(groups) - 1)]
            rest = number(1)
            for x in fr:
                rest = sc.op(rest, "-", x)
            fr = fr + [rest]
            more["subgroups_initial_density"] = sc.np("array", sc.I.new_list(list(fr)))
        bounds = None
        if case:
            bounds = (sc.num("b0"), sc.num("b1"))
            more.update(gamma_bounds=bounds, max_bin_creep_from_bounds=sc.num("creep"))
        o = ev.build(initial_gamma_array=g0, step_duration=dt, merge_bins_closer_than=None, total=T, callback=True, method=method, **more, **kw)
        r = sc.m(o, "evaluate")
        where = [sc.where(TE + "TimeEvolution", "evaluate")]
        ref = Reference(ev, g0, groups, fr, heun=method == "heun", bounds=bounds, case=expect or case)
        if len(ev.records) != steps:
            chk.violate(f"{tag}: number of updates", RULE, f"{len(ev.records)} updates of the distribution in {steps} steps", where)
            return
        chk.ok(f"{tag}: number of updates", RULE)
        for i in range(steps):
            h = dt if i < steps - 1 else sc.op(dt, "*", number(str(Fraction(last))))
            ref.step(h)
            rec, ne, st = ev.records[i]
            record(chk, sc, f"{tag}, update {i + 1}", ref, rec, where)
            expect_equal(chk, sc, f"{tag}, update {i + 1}: Lorentz factors of the emission region", "the emission region holds the evolved distribution", sc.attr(ne, "gamma_input"), ref.current[0], where)
            expect_equal(chk, sc, f"{tag}, update {i + 1}: densities of the emission region", "the emission region holds the evolved distribution", sc.attr(ne, "n_input"), ref.current[1], where)
        record(chk, sc, f"{tag}, result", ref, r, where)
        if sc.attr(ev.blob, "n_e") is ev.records[-1][1]:
            chk.ok(f"{tag}: distribution left in the emission region", RULE)
        else:
            chk.violate(f"{tag}: distribution left in the emission region", RULE, "not the one of the last update", where)
        chk.absorb(sc)


def run(chk):
    for m in ("euler", "heun"):
        scenario(chk, f"{m}, one step", 1, method=m)
        scenario(chk, f"{m}, part of a step", 1, "1/2", method=m)
        scenario(chk, f"{m}, two steps", 2, "1/3", method=m, state=m == "euler")
        scenario(chk, f"{m}, several functions", 1, method=m, state=m == "euler", energy=("loss", "gain"), rel=("esc", "in"), abs_=("inj", "out"))
        scenario(chk, f"{m}, energy changes only", 2, method=m, rel=(), abs_=())
        scenario(chk, f"{m}, two groups", 1, method=m, groups=[["loss", "inj"], ["gain", "esc"]], energy=("loss", "gain"), state=False)
        scenario(chk, f"{m}, two groups with initial shares", 1, method=m, groups=[["loss", "inj"], ["gain", "esc"]], frac=True, energy=("loss", "gain"), state=False)
        scenario(chk, f"{m}, shared function, two groups", 1, method=m, groups=[["loss", "esc"], ["loss", "inj"]], frac=True, state=False)
    scenario(chk, "three steps", 3, "1/5")
    scenario(chk, "three groups", 1, groups=[["loss"], ["loss", "inj"], ["esc"]], frac=True, state=False)
    scenario(chk, "bounds, nothing happens", 2, case=(False, False, False))
    scenario(chk, "bounds, bins removed", 1, case=(True, False, False), state=False)
    scenario(chk, "bounds, bin added at the lower bound", 1, energy=("gain",), case=(False, True, False))
    scenario(chk, "bounds, bin added at the upper bound", 1, energy=("loss",), case=(False, False, True))
    scenario(chk, "bounds, bin added at the lower bound, two groups", 1, energy=("gain",), groups=[["gain", "esc"], ["gain", "inj"]], frac=True, state=False, case=(False, True, False))
    scenario(chk, "heun, bounds, bin added at the upper bound", 1, method="heun", energy=("loss",), case=(False, False, True), state=False)
    scenario(chk, "bounds, far from the bounds in the direction of the motion", 1, energy=("loss",), case=(False, True, False), expect=(False, False, False))
    scenario(chk, "functions in lists", 1, form="list", energy=("loss", "gain"))
    scenario(chk, "single functions", 1, form="one")
    scenario(chk, "integer Lorentz factors", 1, gdt="i")
    scenario(chk, "steps given in hours", 1, unit="h")
    start(chk)
    empty(chk)
    losses(chk)


def start(chk):
    """nothing to do: the result is the initial state"""
    for tag, given, bounds in (("default Lorentz factors", False, False), ("default Lorentz factors within bounds", False, True), ("given Lorentz factors", True, False)):
        with Instance(chk, tag):
            ev = Evolution(chk)
            sc = ev.sc
            kw = {}
            if bounds:
                kw["gamma_bounds"] = (sc.num("b0"), sc.num("b1"))
            if given:
                kw["initial_gamma_array"] = sc.arr("g", "N")
            r = sc.m(ev.build(total=sc.op(sc.q("T", "s"), "*", number(0)), **kw), "evaluate")
            g = kw.get("initial_gamma_array")
            if g is None:
                lo, hi = (sc.attr(ev.first, x) for x in ("gamma_min", "gamma_max"))
                if bounds:
                    lo = sc.np("maximum", lo, kw["gamma_bounds"][0])
                    hi = sc.np("minimum", hi, kw["gamma_bounds"][1])
                g = sc.np("logspace", sc.np("log10", lo), sc.np("log10", hi), sc.attr(ev.blob, "gamma_e_size"))
            record(chk, sc, tag, Reference(ev, g), r, [sc.where(TE + "TimeEvolution", "evaluate")])
            chk.absorb(sc)


def empty(chk):
    """an empty region stays empty, between its bins"""
    tag = "empty region"
    with Instance(chk, tag):
        ev = Evolution(chk, rel=(), abs_=(), state=False, empty=True)
        sc = ev.sc
        g = sc.arr("g", "N")
        dt = sc.q("dt", "s")
        r = sc.m(ev.build(initial_gamma_array=g, step_duration=dt, total=dt, merge_bins_closer_than=None, callback=True), "evaluate")
        where = [sc.where(UT + "update_distribution")]
        ref = Reference(ev, g)
        ref.step(dt)
        record(chk, sc, tag, ref, r, where)
        ne = sc.attr(ev.blob, "n_e")
        for a, i in (("gamma_min", 0), ("gamma_max", -1)):
            expect_equal(chk, sc, f"{tag}: {a} of the region", RULE, sc.attr(ne, a), sc.item(ref.gamma, i), where)
        x = sc.arr("x", "X")
        expect_equal(chk, sc, f"{tag}: density of the region", RULE, sc.call(ne, x), Num(al.ZERO, U("cm-3"), ("X",), "f"), where)
        chk.absorb(sc)


def losses(chk):
    """the functions which come with the package"""
    tag = "functions of the package"
    with Instance(chk, tag):
        sc = Scenario(chk)
        b = sc.call("agnpy:Blob", sc.q("R_b", "cm"), sc.num("z"), sc.num("delta_D"), sc.num("Gamma"), sc.q("B", "G"),
                    sc.call("agnpy.spectra:PowerLaw", sc.q("k", "cm-3"), sc.num("p"), sc.num("gmin"), sc.num("gmax")))
        syn, ssc = sc.call("agnpy:Synchrotron", b), sc.call("agnpy:SynchrotronSelfCompton", b)
        g = sc.arr("g", "N")
        p = sc.call("agnpy.time_evolution.types:FnParams", g, sc.arr("d", "N", unit="cm-3"), sc.arr("s", "N"))
        t = sc.q("t_acc", "h")
        mec2 = sc.spec("evolution:rest_energy")
        for name, a, want in (("synchrotron_loss", syn, lambda: sc.op(sc.m(syn, "electron_energy_loss_rate", g), "*", number(-1))),
                              ("ssc_loss", ssc, lambda: sc.op(sc.m(ssc, "electron_energy_loss_rate", g), "*", number(-1))),
                              ("ssc_thomson_limit_loss", ssc, lambda: sc.op(sc.m(ssc, "electron_energy_loss_rate_thomson", g), "*", number(-1))),
                              ("fermi_acceleration", t, lambda: sc.op(sc.op(g, "*", mec2), "/", t))):
            with Instance(chk, f"{tag}: {name}"):
                expect_equal(chk, sc, f"{tag}: {name}", "energy change rate: negative for losses, positive for gains",
                             sc.call(sc.call(TE + name, a), p), want(), [sc.where(TE + name)])
        chk.absorb(sc)
