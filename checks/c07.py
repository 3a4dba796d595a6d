"""Value-flow analysis: the synchrotron self-Compton SED (with and without
self-absorption of the seed photons, for each shape of distribution, through the
static evaluation function and through the object, with caller-supplied grid and
quadrature), the isotropic Compton kernel, and the differential photon density it
integrates are compared with the documented equations (specs/processes.py) in the
normal form of the value graph."""
from dists import *

MINIMUM = 50
RULE = "documented self-Compton equation"


def run(chk):
    sc = Scenario(chk)
    with Instance(chk, "isotropic kernel"):
        f = sc.get("agnpy.compton.kernels:isotropic_kernel")
        g, e, s = sc.arr("g", "N"), sc.arr("e", "N"), sc.arr("es", "N")
        expect_equal(chk, sc, "isotropic kernel", RULE, sc.call(f, g, e, s), sc.spec("processes:jones", g, e, s), [sc.where(f)])
        f = sc.get("agnpy.compton.kernels:F_c")
        q = sc.arr("q", "N")
        expect_equal(chk, sc, "scattering function", RULE, sc.call(f, q, g), sc.spec("processes:F_c", q, g), [sc.where(f)])
    chk.absorb(sc)
    chk.parallel([lambda c, nm=nm: one(c, nm) for nm in ALL_DISTS])


def one(chk, nm):
    sc = Scenario(chk)
    with Instance(chk, nm):
        both(chk, sc, nm)
    chk.absorb(sc)


def both(chk, sc, nm):
    C = sc.get("agnpy.compton:SynchrotronSelfCompton")
    w = [sc.where(C, "evaluate_sed_flux")]
    n = dist(sc, nm)
    par = list(sc.I.iterate(sc.attr(n, "parameters")))
    v = [sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z"), sc.q("d_L", "cm"), sc.num("delta_D"), sc.q("B", "mG"), sc.q("R_b", "cm")]
    integ = UserFunc("userIntegrator", "integrator")
    dn = sc.attr(n, "SSA_integrand")
    g = sc.arr("gamma", "G")
    for tag, kw, grid, it in (("default grid", {}, None, None), ("given grid", dict(gamma=g), g, None), ("given quadrature", dict(gamma=g, integrator=integ), g, integ)):
        gr = grid if grid is not None else sc.I.call(Ext("numpy.logspace"), [1, 9, 200], {})
        ex = [it] if it is not None else []
        for ssa in (False, True):
            i = f"{nm}: self-Compton SED, {tag}, ssa={ssa}"
            with Instance(chk, i):
                mk = sc.mark()
                got = sc.call(sc.attr(C, "evaluate_sed_flux"), *v, n, *par, ssa=ssa, **kw)
                want = sc.spec("processes:ssc", *v, n, dn, gr, ssa, *ex)
                expect_equal(chk, sc, i, RULE, got, want, w)
                no_raises(chk, sc, i, mk)
    b = blob(sc, n_e=n, gamma_e_size=sc.num("size_e", dt="i"))
    nu = sc.q("nu", "Hz", ("N",))
    a = lambda x: sc.attr(b, x)
    for ssa in (False, True):
        i = f"{nm}: SED of the object, ssa={ssa}"
        with Instance(chk, i):
            s = sc.call(C, b, ssa=ssa)
            want = sc.spec("processes:ssc", nu, a("z"), a("d_L"), a("delta_D"), a("B"), a("R_b"), n, dn, a("gamma_e"), ssa)
            expect_equal(chk, sc, i, RULE, sc.m(s, "sed_flux", nu), want, [sc.where(s, "sed_flux")])
