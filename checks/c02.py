"""Whole-package value-flow analysis (abstract interpretation into a gated value
graph with an algebraic normal form). For every analytic distribution, built
with symbolic parameters, the graph of the evaluated density is compared with
the graph of its documented shape (specs/spectra.py), for arrays, scalars and
integer arrays of Lorentz factors, for positional and keyword construction, for
the static evaluation, after an update of each parameter; the interpolated
distribution is compared with the power of ten of the log-log interpolant inside
the support, the empty one with zero."""
from dists import *

MINIMUM = 105


def run(chk):
    for n in ANALYTIC:
        analytic(chk, n)
    interpolated(chk)
    empty(chk)


def analytic(chk, n):
    kinds = [("array", "f"), ("scalar", "f"), ("array", "i"), ("2d", "f")]
    for kind, dt in kinds:
        name = f"{n} on {kind} of {'integers' if dt == 'i' else 'floats'}"
        sc = Scenario(chk)
        with Instance(chk, name):
            d = dist(sc, n)
            g = sc.arr("g", "G", dt=dt) if kind == "array" else sc.num("g", dt=dt) if kind == "scalar" else sc.q("g", None, ("G", 1))
            ps = list(params(sc, n).values())
            where = [sc.where(d, "evaluate"), sc.where(d, "__call__")]
            mk = sc.mark()
            want = sc.spec("spectra:" + n, g, *ps)
            expect_equal(chk, sc, name + " (called)", "density equals the documented shape", sc.call(d, g), want, where)
            st = sc.attr(d, "evaluate")
            expect_equal(chk, sc, name + " (static)", "density equals the documented shape",
                         sc.call(st, g, *[sc.attr(d, p) for p in ANALYTIC[n]]), want, where)
            no_raises(chk, sc, name, mk)
        chk.absorb(sc)
    # a grid whose ends leave the support by rounding only, or by more than that
    sc = Scenario(chk, generic=False)
    for tag, e in (("within rounding of", "1/1000000000000"), ("clearly outside", "1/1000000")):
        name = f"{n}: ends of the array {tag} the limits"
        with Instance(chk, name):
            mk = sc.mark()
            g = sc.arr("g", "G")
            ps = params(sc, n)
            up, down = (sc.op(1, o, number(e)) for o in "+-")
            ps["gamma_min"], ps["gamma_max"] = sc.op(sc.item(g, 0), "*", up), sc.op(sc.item(g, -1), "*", down)
            d = sc.call("agnpy.spectra:" + n, **ps)
            r = sc.call(d, g)
            inside = tag.startswith("within")
            for i, lim in ((0, "gamma_min"), (-1, "gamma_max")):
                x = ps[lim] if inside else sc.item(g, i)
                want = sc.spec("spectra:" + n, x, *ps.values())
                expect_equal(chk, sc, f"{name}: {lim}", "density equals the documented shape", sc.item(r, i), want, [sc.where(d, "evaluate")])
            no_raises(chk, sc, name, mk)
    chk.absorb(sc)
    # constructed positionally, for protons, with another integrator
    sc = Scenario(chk)
    with Instance(chk, n + " positional"):
        c = sc.get("agnpy.spectra:" + n)
        ps = list(params(sc, n).values())
        d = sc.call(c, *ps, mass=models.CONSTANTS["m_p"])
        g = sc.arr("g", "G")
        expect_equal(chk, sc, n + " positional", "density equals the documented shape", sc.call(d, g),
                     sc.spec("spectra:" + n, g, *ps), [sc.where(d, "__init__")])
    # every parameter is effective after an update
    for p in ANALYTIC[n]:
        with Instance(chk, f"{n}.{p} updated"):
            d = dist(sc, n)
            g = sc.arr("g", "G")
            sc.call(d, g)
            ps = params(sc, n)
            new = sc.q("k_new", "cm-3") if p == "k" else sc.num(p + "_new", p not in SIGNED)
            sc.set(d, p, new)
            ps[p] = new
            expect_equal(chk, sc, f"{n}.{p} updated", "density uses the current parameters", sc.call(d, g),
                         sc.spec("spectra:" + n, g, *ps.values()), [sc.where(d, "__call__")])
    chk.absorb(sc)


def interpolated(chk):
    sc = Scenario(chk)
    n = "InterpolatedDistribution"
    with Instance(chk, n):
        d = dist(sc, n)
        where = [sc.where(d, "evaluate")]
        g = sc.arr("g", "G")
        gin, nin = sc.arr("gamma_in", "IN"), sc.arr("n_in", "IN", unit="cm-3")
        want = sc.spec("interpolated:density", gin, nin, sc.num("norm"), g)
        expect_equal(chk, sc, n + " (called)", "density equals the log-log interpolant", sc.call(d, g), want, where)
        lo, hi = sc.spec("interpolated:limits", gin, nin)
        expect_equal(chk, sc, n + " lower limit", "support of the non-zero densities", sc.attr(d, "gamma_min"), lo, [sc.where(d, "log10_interpolation")])
        expect_equal(chk, sc, n + " upper limit", "support of the non-zero densities", sc.attr(d, "gamma_max"), hi, [sc.where(d, "log10_interpolation")])
        gi = sc.arr("g", "G", dt="i")
        expect_equal(chk, sc, n + " on integers", "density equals the log-log interpolant", sc.call(d, gi), want, where)
        g2 = sc.q("g", None, ("G", 1))
        expect_equal(chk, sc, n + " on 2d", "density equals the log-log interpolant", sc.call(d, g2),
                     sc.spec("interpolated:density", gin, nin, sc.num("norm"), g2), where)
        for p in ("norm", "gamma_min", "gamma_max"):
            new = sc.num(p + "_new")
            d = dist(sc, n)
            sc.set(d, p, new)
            kw = dict(gamma_min=lo, gamma_max=hi, norm=sc.num("norm"))
            kw[p] = new
            expect_equal(chk, sc, f"{n}.{p} updated", "density uses the current parameters", sc.call(d, g),
                         sc.spec("interpolated:density2", gin, nin, kw["norm"], g, kw["gamma_min"], kw["gamma_max"]), where)
    chk.absorb(sc)


def empty(chk):
    sc = Scenario(chk)
    n = "EmptyDistribution"
    with Instance(chk, n):
        d = dist(sc, n)
        for g, nm in ((sc.arr("g", "G"), "array"), (sc.arr("g", "G", dt="i"), "integers"), (sc.num("g"), "scalar")):
            r = sc.call(d, g)
            want = Num(ZERO, u.Unit("cm-3"), g.dims)
            expect_equal(chk, sc, f"{n} on {nm}", "zero density", r, want, [sc.where(d, "evaluate")])
        expect_equal(chk, sc, n + " total", "zero density", sc.m(d, "integrate"), Num(ZERO, u.Unit("cm-3"), ()), [sc.where(d, "integrate")])
    chk.absorb(sc)
