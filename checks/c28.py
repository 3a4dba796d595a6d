"""Value-flow analysis of the automatic steps of the time evolution: the step
taken from a state is the longest one which keeps every bin of every group
within the limits given by the user (specs/evolution.py: longest)."""
from evol import *

al.NARY = True
MINIMUM = 24
RULE = "an automatic step is the longest one within the limits"


class Enough(Exception):
    pass


def large(name, longer=True):
    """the total time is longer (shorter) than the steps"""
    def decide(a):
        r = generic_bins(a)
        if r is not None or a.kind != "ind" or a.args[0] not in ("ge0", "eq0"):
            return r
        names = {al.ATOMS[i].args[0] for i in al.all_atoms(a.args[1]) if al.ATOMS[i].kind == "sym"}
        if name in names:
            return a.args[0] == "ge0" and (positive_in(a.args[1], name) > 0) == longer
        return None
    return decide


def scenario(chk, tag, steps=1, groups=None, frac=None, method="euler", state=True, optimize=False, limits=None, short=False, **kw):
    names = {k: kw.pop(k) for k in ("energy", "rel", "abs_") if k in kw}
    with Instance(chk, tag):
        ev = Evolution(chk, state=state, decide=large("T", not short), **names)
        sc = ev.sc
        g0 = sc.arr("g", "N")
        more = {}
        if groups is not None:
            more["subgroups"] = sc.I.new_list([sc.I.new_list(list(x)) for x in groups])
        fr = None
        if frac:
            fr = [sc.arr(f"f{i}", "N") for i in range(len(groups) - 1)]
            rest = number(1)
            for x in fr:
                rest = sc.op(rest, "-", x)
            fr = fr + [rest]
            more["subgroups_initial_density"] = sc.np("array", sc.I.new_list(list(fr)))
        lim = [sc.num(x) for x in ("e_max", "d_max", "i_max")] if limits is None else [number(x) for x in limits]
        if limits is None:
            more.update(zip(("max_energy_change_per_interval", "max_density_change_per_interval", "max_injection_per_interval"), lim))
        o = ev.build(initial_gamma_array=g0, merge_bins_closer_than=None, callback=True, method=method, optimize_recalculating_slow_rates=optimize, **more, **kw)
        ev.stop = (steps + short, Enough)
        try:
            sc.m(o, "evaluate")
        except Enough:
            pass
        where = [sc.where(TE + "TimeEvolution", "evaluate")]
        ref = Reference(ev, g0, groups, fr, heun=method == "heun")
        L = sc.I.new_list
        if short:
            if len(ev.records) != 1:
                chk.violate(f"{tag}: number of steps", RULE, f"{len(ev.records)} steps within the limits of one", where)
            else:
                chk.ok(f"{tag}: number of steps", RULE)
                ref.step(sc.q("T", "s"))
                rec = ev.records[0][0]
                for k, w in (("total_time", sc.q("T", "s")), ("gamma", ref.gamma), ("density", ref.n)):
                    expect_equal(chk, sc, f"{tag}: {k}", RULE, sc.attr(rec, k), w, where)
            chk.absorb(sc)
            return
        for i in range(steps):
            rates, inj = ref.rates()
            t = ref.S("shortest", ref.S("longest", ref.gamma, L(rates), L(inj), *lim))
            rec, ne, st = ev.records[i]
            expect_equal(chk, sc, f"{tag}: time after step {i + 1}", RULE, sc.attr(rec, "total_time"), sc.op(ref.elapsed, "+", t), where)
            if i < steps - 1:
                ref.step(t)
        chk.absorb(sc)


def steep(a):
    """the losses increase with the energy, no bin reaches zero energy"""
    r = large("T")(a)
    if r is not None or a.kind != "ind" or a.args[0] not in ("ge0", "eq0"):
        return r
    if a.args[0] == "eq0":
        return False
    up = 0
    for m, c in al.as_terms(al.canon(a.args[1])).items():
        if len(m) != 1 or m[0][1] != 1 or al.ATOMS[m[0][0]].kind != "fn" or al.ATOMS[m[0][0]].args[0] != "user:loss":
            return None
        if al.ATOMS[m[0][0]].args[1].c != 1:
            up += c
    return up > 0


def under(v):
    n = al.canon(v.node)
    for i in sorted(al.ind_atoms(n)):
        d = steep(al.ATOMS[i])
        if d is not None:
            n = al.canon(al.set_ind(n, i, d))
    return v.replace(node=n)


def slow(chk, tag):
    """bins with slow changes keep their rates"""
    with Instance(chk, tag):
        ev = Evolution(chk, state=False, rel=(), abs_=(), decide=steep)
        sc = ev.sc
        g = sc.arr("g", "N")
        lim = [sc.num(x) for x in ("e_max", "d_max")]
        o = ev.build(initial_gamma_array=g, merge_bins_closer_than=None, callback=True, optimize_recalculating_slow_rates=True, max_energy_change_per_interval=lim[0], max_density_change_per_interval=lim[1])
        ev.stop = (1, Enough)
        try:
            sc.m(o, "evaluate")
        except Enough:
            pass
        where = [sc.where(TE + "TimeEvolution", "evaluate")]
        ref = Reference(ev, g)
        S = ref.S
        again = UserFunc("again", handler=lambda I, f, a, k: ref.rate("loss", "energy", a[0], None, None, None))
        up = ref.upper(g)
        rates = [sc.call(again, g), sc.call(again, up)]
        left = S("slow_first", g, *rates, *lim)
        h = S("shortest", left)
        st = S("slow_step", g, up, ref.n, left, *rates, h, again)
        rec = ev.records[0][0]
        got = lambda rec: (sc.attr(rec, "total_time"), sc.attr(rec, "gamma"), sc.attr(rec, "density"), sc.I.cur(sc.I.hget(sc.attr(rec, "en_chg_rates").loc)["loss"]))
        for name, a, w in zip(("time", "Lorentz factors", "densities", "rates"), got(rec), (h, st[0], st[2], st[4])):
            expect_equal(chk, sc, f"{tag}: {name} after the first step", RULE, under(a), under(w), where)
        chk.absorb(sc)


def run(chk):
    scenario(chk, "losses")
    scenario(chk, "losses, two steps", 2)
    scenario(chk, "losses only, two steps", 2, rel=(), abs_=())
    scenario(chk, "losses and gains", energy=("loss", "gain"))
    scenario(chk, "unknown energy changes", energy=("change", "gain"))
    scenario(chk, "several injections", rel=("esc", "in"), abs_=("inj", "out"))
    scenario(chk, "heun", 2, method="heun", rel=(), abs_=())
    scenario(chk, "two groups", groups=[["loss", "inj"], ["gain", "esc"]], frac=True, state=False, energy=("loss", "gain"))
    scenario(chk, "two groups, injection in the first", groups=[["loss", "inj", "esc"], ["gain"]], energy=("loss", "gain"))
    scenario(chk, "separate recalculation of slow bins", optimize=True)
    scenario(chk, "separate recalculation of slow bins by default", optimize=None)
    scenario(chk, "limits by default", limits=("1/100", "1/10", "1"))
    scenario(chk, "total time within one step", short=True)
    scenario(chk, "total time within one step, separate recalculation of slow bins", short=True, optimize=True)
    slow(chk, "bins with slow changes")
