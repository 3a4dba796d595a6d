"""Value-flow analysis of the loaders of flux points: what each backend fits must be the
energies, fluxes and errors of the file, point by point and instrument by instrument."""
from fitmodels import *

MINIMUM = 864
R = "points of the file with their errors"
RS = "systematic error of the instrument"
RL = "energy range of the fit"
# names which contain each other: only the same name is the same instrument
NAME = {"A": "Fermi", "B": "Fermi LAT", "C": "fermi", "Z": "LAT"}
ROWS = [NAME[n] for n in "BABCAB"]
COLS = ["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp"]


def run(chk):
    sc = fitscenario(chk)
    x = {c: [sc.num(f"{c}_{i}") for i in range(len(ROWS))] for c in COLS}
    table = {c: sc.np("array", sc.I.new_list(x[c])) for c in COLS}
    table["instrument"] = sc.I.new_list(list(ROWS))
    src = sc.ns("astropy.table")["SOURCE"]
    sc.I.hget(src.loc)["sed.ecsv"] = sc.I.new_dict(table)
    s = {NAME[n]: sc.num("syst_" + n) for n in "ABC"}
    order = sorted(range(len(ROWS)), key=lambda i: ROWS[i])
    for un in (("eV", "eV"), ("keV", "TeV")):
        lo, hi = sc.q("E_min", un[0]), sc.q("E_max", un[1])
        for names in (None, "", "A", "C", "AB", "BA", "ABC", "Z", "AZ"):
            names = names and [NAME[n] for n in names]
            syst = None if names is None else sc.I.new_dict({n: s.get(n, number("1/3")) for n in names})
            rel = [s[ROWS[i]] if names and ROWS[i] in names else 0 for i in range(len(ROWS))]
            tag = f"systematics {'none given' if names is None else list(names)}, limits in {un[0]}, {un[1]}"
            args = ["sed.ecsv", lo, hi] + ([] if names is None else [syst])
            for f in (sherpa, gammapy):
                with Instance(chk, f"{f.__name__}: {tag}"):
                    f(chk, sc, tag, args, x, rel, order, lo, hi)
    chk.absorb(sc)


def at(sc, a, i):
    return sc.item(a, i)


def sherpa(chk, sc, tag, args, x, rel, order, lo, hi):
    fn = "agnpy.fit.data:load_sherpa_flux_points"
    w = [sc.where(fn)]
    mk = sc.mark()
    d = sc.call(fn, *args)
    no_raises(chk, sc, "sherpa: " + tag, mk)
    cols = {n: sc.attr(d, n) for n in ("x", "y", "staterror", "syserror")}
    for n, a in cols.items():
        size = sc.attr(a, "size")
        if compare(size, len(order)):
            chk.violate(f"sherpa {n}: {tag}", R, f"{size!r} values instead of {len(order)}", w)
            raise Stop
    # every point of the file once, its four numbers at the same position
    perm = []
    for k in range(len(order)):
        e = at(sc, cols["x"], k)
        j = [i for i in range(len(order)) if i not in perm and compare(e, x["e_ref"][i]) is None]
        if not j:
            chk.violate(f"sherpa x[{k}]: {tag}", R, f"{e!r} is not an energy of the file", w)
            raise Stop
        perm.append(j[0])
    chk.ok(f"sherpa x: {tag}", R)
    for k, i in enumerate(perm):
        expect_equal(chk, sc, f"sherpa flux of point {i}: {tag}", R, at(sc, cols["y"], k), x["e2dnde"][i], w)
        mean = sc.op(sc.op(x["e2dnde_errn"][i], "+", x["e2dnde_errp"][i]), "/", 2)
        expect_equal(chk, sc, f"sherpa statistical error of point {i}: {tag}", R, at(sc, cols["staterror"], k), mean, w)
        expect_equal(chk, sc, f"sherpa systematic error of point {i}: {tag}", RS, at(sc, cols["syserror"], k), sc.op(rel[i], "*", x["e2dnde"][i]), w)
    n = sc.attr(d, "noticed")
    if not isinstance(n, tuple):
        chk.violate("sherpa limits: " + tag, RL, f"noticed {n!r}", w)
    else:
        expect_equal(chk, sc, "sherpa limits: " + tag, RL, n, (sc.m(lo, "to_value", "eV"), sc.m(hi, "to_value", "eV")), w)


def gammapy(chk, sc, tag, args, x, rel, order, lo, hi):
    fn = "agnpy.fit.data:load_gammapy_flux_points"
    w = [sc.where(fn), sc.where("agnpy.fit.data:add_systematic_errors_gammapy_flux_points")]
    mk = sc.mark()
    ds = sc.call(fn, *args)
    no_raises(chk, sc, "gammapy: " + tag, mk)
    ds = sc.I.hget(sc.attr(ds, "_datasets").loc)
    got = [sc.attr(d, "name") for d in ds]
    if sorted(got) != sorted(set(ROWS)):
        chk.violate("gammapy datasets: " + tag, R, f"datasets {got}", w)
        raise Stop
    chk.ok("gammapy datasets: " + tag, R)
    for d in ds:
        name = sc.attr(d, "name")
        rows = [i for i in range(len(ROWS)) if ROWS[i] == name]
        fp = sc.attr(d, "data")
        for k, i in enumerate(rows):
            p = f"gammapy point {i}: {tag}"
            e2 = sc.op(x["e_ref"][i], "**", 2)
            v = lambda c: at(sc, sc.attr(sc.attr(fp, c), "data"), k)
            expect_equal(chk, sc, p + ": energy", R, at(sc, sc.attr(fp, "energy_ref"), k), x["e_ref"][i], w)
            expect_equal(chk, sc, p + ": flux", R, sc.op(v("dnde"), "*", e2), x["e2dnde"][i], w)
            for c in ("errn", "errp"):
                sy = sc.op(rel[i], "*", x["e2dnde"][i])
                want = sc.np("sqrt", sc.op(sc.op(x["e2dnde_" + c][i], "**", 2), "+", sc.op(sy, "**", 2)))
                expect_equal(chk, sc, f"{p}: {c}", RS, sc.op(v("dnde_" + c), "*", e2), want, w)
        m = sc.attr(d, "mask_fit")
        if not isinstance(m, Obj) or m.cls.name != "EnergyMask":
            chk.violate(f"gammapy limits of {name}: {tag}", RL, f"mask {m!r}", w)
        else:
            expect_equal(chk, sc, f"gammapy limits of {name}: {tag}", RL, (sc.attr(m, "energy_min"), sc.attr(m, "energy_max")), (lo, hi), w)
