"""Value-flow analysis of the normalisations. For every analytic distribution
and both particle masses, the distribution built from a requested total density,
total energy density, total energy or density at gamma = 1 is itself integrated
(or evaluated) by the analysed code and the resulting graph must reduce to the
requested symbol, whatever the other parameters; the density, its integrals and
the self-absorption integrand must be proportional to the normalisation
(substitution k -> lambda k in the graph); integrals follow their definition for
every combination of limits, power and integrator."""
import ast
from dists import *

MINIMUM = 120


def mul_(sc, a, b):
    return sc.I.binop(ast.Mult(), a, b)


def run(chk):
    for n in ANALYTIC:
        for mass in ("m_e", "m_p"):
            roundtrip(chk, n, mass)
    for n in ALL_DISTS:
        linear(chk, n)
        integrals(chk, n)


def roundtrip(chk, n, mass):
    M = models.CONSTANTS[mass]
    R = "the distribution has the requested normalisation"
    for kind in ("total_density", "total_energy_density", "total_energy", "density_at_gamma_1"):
        sc = Scenario(chk)
        name = f"{n}.from_{kind} ({mass})"
        with Instance(chk, name):
            c = sc.get("agnpy.spectra:" + n)
            f = sc.attr(c, "from_" + kind)
            kw = {k: v for k, v in params(sc, n).items() if k != "k"}
            where = [sc.where(f)]
            mk = sc.mark()
            if kind == "total_density":
                req = sc.q("n_req", userunit("myDensity", u.cm**-3))
                d = sc.call(f, req, M, **kw)
                got = sc.m(d, "integrate")
            elif kind == "total_energy_density":
                req = sc.q("u_req", userunit("myEnergyDensity", u.erg / u.cm**3))
                d = sc.call(f, req, M, **kw)
                got = energy(sc, d)
            elif kind == "total_energy":
                req, V = sc.q("W_req", "J"), sc.q("V_req", "m3")
                d = sc.call(f, req, V, M, **kw)
                got = mul_(sc, energy(sc, d), V)
            else:
                req = sc.q("n_req", userunit("myDensity", u.cm**-3))
                kw["gamma_min"] = 1
                kw["gamma_max"] = Num(al.add(ONE, al.sym("range", True)))
                d = sc.call(f, req, M, **kw)
                got = sc.call(d, 1)
            expect_equal(chk, sc, name, R, got, req, where)
            no_raises(chk, sc, name, mk)
            for p in kw:
                expect_equal(chk, sc, f"{name}: {p}", "the other parameters are those given", sc.attr(d, p), kw[p], where)
            if sc.attr(d, "mass") is not M and compare(sc.attr(d, "mass"), M):
                chk.violate(name + ": mass", "the other parameters are those given", "another mass", where)
            else:
                chk.ok(name + ": mass", "the other parameters are those given")
            w = sc.attr(d, "k")
            expect_equal(chk, sc, name + ": unit of k", "normalisation is a number density", Num(ONE, w.unit), Num(ONE, u.Unit("cm-3")), where)
        chk.absorb(sc)


def energy(sc, d):
    mc2 = sc.attr(d, "mc2")
    return mul_(sc, mc2, sc.m(d, "integrate", gamma_power=1))


def linear(chk, n):
    sc = Scenario(chk)
    p = "norm" if n == "InterpolatedDistribution" else "k"
    lam = al.sym("lambda", True)
    with Instance(chk, n + " linear"):
        d = dist(sc, n)
        g = sc.arr("g", "G")
        b = blob(sc, d)
        for nm, f in (("density", lambda: sc.call(d, g)), ("self-absorption integrand", lambda: sc.m(d, "SSA_integrand", g)),
                      ("integral", lambda: sc.m(d, "integrate")), ("energy integral", lambda: sc.m(d, "integrate", gamma_power=1)),
                      ("total density of the region", lambda: sc.attr(b, "n_e_tot")), ("total energy of the region", lambda: sc.attr(b, "W_e"))):
            r = f()
            scaled = Num(al.subst(r.node, {al.sym(p, True): al.mul2(lam, al.sym(p, True))}), r.unit, r.dims)
            want = Num(al.mul2(lam, r.node), r.unit, r.dims)
            expect_equal(chk, sc, f"{n}: {nm} proportional to the normalisation", "proportional to the normalisation", scaled, want, [sc.where(d, "evaluate")])
            if p not in al.symbols(r.node):
                chk.violate(f"{n}: {nm} depends on the normalisation", "proportional to the normalisation", "independent of it", [sc.where(d, "evaluate")])
    chk.absorb(sc)


def integrals(chk, n):
    sc = Scenario(chk)
    F_user = UserFunc("user_integrator", "integrator")
    with Instance(chk, n + " integrals"):
        d = dist(sc, n)
        lo, hi = sc.num("low"), sc.num("up")
        q = sc.num("q", False)
        for tag, dd, integ in (("default integrator", d, Ext("numpy.trapz")), ("user integrator", dist(sc, n, integrator=F_user), F_user)):
            gm, gM = sc.attr(dd, "gamma_min"), sc.attr(dd, "gamma_max")
            for a, b, pw in ((None, None, None), (lo, None, None), (None, hi, 1), (lo, hi, q), (None, None, 2)):
                kw = {}
                if a is not None:
                    kw["gamma_low"] = a
                if b is not None:
                    kw["gamma_up"] = b
                if pw is not None:
                    kw["gamma_power"] = pw
                name = f"{n}: integral with {tag} and {sorted(kw)}"
                with Instance(chk, name):
                    got = sc.m(dd, "integrate", **kw)
                    want = sc.spec("norms:moment", dd, a if a is not None else gm, b if b is not None else gM, pw if pw is not None else 0, integ)
                    expect_equal(chk, sc, name, "integral of gamma^power n(gamma) between the limits", got, want, [sc.where(dd, "integrate")])
    if n in ANALYTIC:
        with Instance(chk, n + " static integral"):
            c = sc.get("agnpy.spectra:" + n)
            ps = params(sc, n)
            got = sc.call(sc.attr(c, "integral"), c, sc.num("low"), sc.num("up"), sc.num("q", False), integrator=F_user, **ps)
            d = dist(sc, n)
            want = sc.spec("norms:moment", d, sc.num("low"), sc.num("up"), sc.num("q", False), F_user)
            expect_equal(chk, sc, n + ": static integral", "integral of gamma^power n(gamma) between the limits", got, want, [sc.where(c, "integral")])
    chk.absorb(sc)
