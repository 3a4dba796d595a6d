"""Value-flow analysis: the external Compton SED on each photon target (static
evaluation functions with default and caller-supplied grids and quadrature, and
the object with its own grids), for each shape of distribution, and the
angle-dependent kernel with its minimum Lorentz factor, are compared with the
documented equations (specs/processes.py) in the normal form of the value graph,
including the grid, the axis and the nesting of every quadrature."""
from dists import *

MINIMUM = 146
RULE = "documented external Compton equation"
np_ = lambda sc, f, *a: sc.I.call(Ext("numpy." + f), list(a), {})


def run(chk):
    sc = Scenario(chk)
    with Instance(chk, "kernel"):
        a = [sc.arr(x, "N") for x in ("g", "es", "e")] + [sc.arr(x, "N", pos=False) for x in ("mus", "mu", "phi")]
        f = sc.get("agnpy.compton.kernels:compton_kernel")
        expect_equal(chk, sc, "angle-dependent kernel", RULE, sc.call(f, *a), sc.spec("processes:compton", *a), [sc.where(f)])
        f = sc.get("agnpy.compton.kernels:get_gamma_min")
        expect_equal(chk, sc, "minimum Lorentz factor", RULE, sc.call(f, *a[1:]), sc.spec("processes:gamma_low", *a[1:]), [sc.where(f)])
    chk.absorb(sc)
    chk.parallel([lambda c, nm=nm, t=t: one(c, nm, t) for t in reversed(TARGETS) for nm in ALL_DISTS])


def one(chk, nm, t):
    sc = Scenario(chk)
    with Instance(chk, f"{nm} on {t}"):
        static(chk, sc, nm, t)
        obj(chk, sc, nm, t)
    chk.absorb(sc)


def default_grids(sc, t):
    g = dict(gamma=np_(sc, "logspace", 1, 9, 200), mu=np_(sc, "linspace", -1, 1, 100), mu_size=100,
             phi=sc.spec("targets:phi_grid", 50))
    return {k: g[k] for k in EC_GRIDS[t]}


def static(chk, sc, nm, t):
    fn, spec, pars, has_r = EC[t]
    C = sc.get("agnpy.compton:ExternalCompton")
    n = dist(sc, nm)
    par = list(sc.I.iterate(sc.attr(n, "parameters")))
    nu = sc.q("nu", userunit("myHz", u.Hz), ("N",))
    v = [nu, sc.num("z"), sc.q("d_L", "cm"), sc.num("delta_D"), sc.num("mu_s", pos=False), sc.q("R_b", "cm")]
    tp = [sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars] + ([sc.q("r", "pc")] if has_r else [])
    user = dict(gamma=sc.arr("gamma", "G"), mu=sc.arr("mu_grid", "M", pos=False), phi=sc.arr("phi_grid", "P"), mu_size=sc.num("mu_size", dt="i"))
    user = {k: user[k] for k in EC_GRIDS[t]}
    integ = UserFunc("userIntegrator", "integrator")
    for tag, kw, it in (("default grids", {}, None), ("given grids", user, None), ("given quadrature", user, integ)):
        i = f"{nm} on {t}: SED, {tag}"
        with Instance(chk, i):
            mk = sc.mark()
            k2 = dict(kw)
            if it:
                k2["integrator"] = it
            got = sc.call(sc.attr(C, fn), *v, *tp, n, *par, **k2)
            grids = kw or default_grids(sc, t)
            want = sc.spec("processes:" + spec, *v, *tp, n, *grids.values(), *([it] if it else []))
            expect_equal(chk, sc, i, RULE, got, want, [sc.where(C, fn)])
            no_raises(chk, sc, i, mk)


def obj(chk, sc, nm, t):
    fn, spec, pars, has_r = EC[t]
    C = sc.get("agnpy.compton:ExternalCompton")
    n = dist(sc, nm)
    b = blob(sc, n_e=n, gamma_e_size=sc.num("size_e", dt="i"))
    nu = sc.q("nu", "Hz", ("N",))
    a = lambda x: sc.attr(b, x)
    tg = target(sc, t)
    r = sc.q("r", "cm")
    i = f"{nm} on {t}: SED of the object"
    with Instance(chk, i):
        ec = sc.call(C, b, tg, r)
        grids = {"gamma": a("gamma_e_external_frame"), "mu": np_(sc, "linspace", -1, 1, 100), "mu_size": 100, "phi": sc.spec("targets:phi_grid", 50)}
        for tag in ("default grids", "changed grids"):
            if tag == "changed grids":
                if t == "PointSourceBehindJet":
                    break
                sc.m(ec, "set_mu", mu_size=70)
                sc.m(ec, "set_phi", phi_size=30)
                grids.update(mu=np_(sc, "linspace", -1, 1, 70), mu_size=70, phi=sc.spec("targets:phi_grid", 30))
            want = sc.spec("processes:" + spec, nu, a("z"), a("d_L"), a("delta_D"), a("mu_s"), a("R_b"), *[sc.attr(tg, p) for p in pars],
                           *([r] if has_r else []), n, *[grids[k] for k in EC_GRIDS[t]])
            expect_equal(chk, sc, f"{i}, {tag}", RULE, sc.m(ec, "sed_flux", nu), want, [sc.where(ec, "sed_flux"), sc.where(C, fn)])
