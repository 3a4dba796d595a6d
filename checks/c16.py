"""Value-flow analysis: the pair-production cross section, the geometry of the
photon directions and the optical depth on each photon target (static evaluation
functions with default and caller-supplied grids, and the objects with their own
grids, on and off the jet axis, and on the synchrotron photons of a region) are
compared with the documented equations (specs/processes.py) in the normal form of
the value graph, including grid, axis and nesting of every quadrature."""
from dists import *

MINIMUM = 56
RULE = "documented optical depth"
from fractions import Fraction
HUNDREDTH = Num(al.E(Fraction(1, 100)), None, (), "f", arr=False)
np_ = lambda sc, f, *a: sc.I.call(Ext("numpy." + f), list(a), {})
# target: (static function, spec, target parameters, grids with defaults)
TAU = {
    "PointSourceBehindJet": ("evaluate_tau_ps_behind_blob", "tau_ps", ["epsilon_0", "L_0"], []),
    "SSDisk": ("evaluate_tau_ss_disk", "tau_disk", ["M_BH", "L_disk", "eta", "R_in", "R_out"], ["R_tilde_size", "l_tilde_size", "phi"]),
    "SphericalShellBLR": ("evaluate_tau_blr", "tau_blr", ["L_disk", "xi_line", "epsilon_line", "R_line"], ["l_size", "mu", "phi"]),
    "RingDustTorus": ("evaluate_tau_dt", "tau_dt", ["L_disk", "xi_dt", "epsilon_dt", "R_dt"], ["l_size", "phi"]),
}
TAU_OFF = {
    "PointSourceBehindJet": ("evaluate_tau_ps_behind_blob_mu_s", "tau_ps_off", ["epsilon_0", "L_0"], ["u_size"]),
    "SphericalShellBLR": ("evaluate_tau_blr_mu_s", "tau_blr_off", ["L_disk", "xi_line", "epsilon_line", "R_line"], ["u_size", "mu", "phi"]),
    "RingDustTorus": ("evaluate_tau_dt_mu_s", "tau_dt_off", ["L_disk", "xi_dt", "epsilon_dt", "R_dt"], ["u_size", "phi_re"]),
}


def symbolic(sc, pars):
    return [sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars]


def grids(sc, which, off):
    d = dict(R_tilde_size=100, l_tilde_size=50, l_size=50, u_size=100, mu=np_(sc, "linspace", -1, 1, 100),
             phi=sc.spec("targets:phi_grid", 50), phi_re=sc.spec("targets:phi_grid", 50))
    return {k: d[k] for k in which}


def user(sc, which):
    return {k: sc.num(k, dt="i") if k.endswith("size") else sc.arr(k + "_grid", k, pos=False) for k in which}


def want_tau(sc, spec, nu, z, mu_s, tp, r, g):
    if spec == "tau_blr_off":
        path = sc.spec("processes:path_blr", mu_s, tp[3], r, g["u_size"])
        return sc.spec("processes:tau_blr_off", nu, z, mu_s, *tp, r, path, g["mu"], g["phi"])
    return sc.spec("processes:" + spec, nu, z, mu_s, *tp, r, *g.values())


def run(chk):
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    A = sc.get("agnpy.absorption:Absorption")
    with Instance(chk, "cross section"):
        f = sc.get("agnpy.absorption:sigma")
        s = sc.arr("s", "N")
        expect_equal(chk, sc, "pair-production cross section", RULE, sc.call(f, s), sc.spec("processes:sigma_gg", s), [sc.where(f)])
    geometry(chk, sc)
    chk.absorb(sc)
    jobs = []
    for off, tab in ((False, TAU), (True, TAU_OFF)):
        for t in tab:
            jobs += [lambda c, o=off, t=t: static(c, o, t), lambda c, o=off, t=t: obj(c, o, t)]
    jobs += [lambda c, n=n: synch(c, n) for n in ("PowerLaw", "LogParabola")]
    chk.parallel(jobs)


def static(chk, off, t):
    fn, spec, pars, gr = (TAU_OFF if off else TAU)[t]
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    A = sc.get("agnpy.absorption:Absorption")
    for tag in ("default grids", "given grids"):
        i = f"{t}, {'off' if off else 'on'} axis: optical depth, {tag}"
        with Instance(chk, i):
            nu = sc.q("nu", userunit("myHz", u.Hz), ("N",))
            z, mu_s, r = sc.num("z"), sc.num("mu_s", pos=False), sc.q("r", "pc")
            tp = symbolic(sc, pars)
            g = grids(sc, gr, off) if tag == "default grids" else user(sc, gr)
            mk = sc.mark()
            got = sc.call(sc.attr(A, fn), nu, z, mu_s, *tp, r, **({} if tag == "default grids" else g))
            want = want_tau(sc, spec, nu, z, mu_s, tp, r, g)
            expect_equal(chk, sc, i, RULE, got, want, [sc.where(A, fn)])
            no_raises(chk, sc, i, mk)
    chk.absorb(sc)


def obj(chk, off, t):
    fn, spec, pars, gr = (TAU_OFF if off else TAU)[t]
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    i = f"{t}, {'off' if off else 'on'} axis: object"
    with Instance(chk, i):
        tg = target(sc, t)
        r, z = sc.q("r", "cm"), sc.num("z")
        mu_s = sc.num("mu_s", pos=False) if off else 1
        a = sc.call("agnpy.absorption:Absorption", tg, r=r, z=z, **(dict(mu_s=mu_s) if off else {}))
        nu = sc.q("nu", "Hz", ("N",))
        g = grids(sc, gr, off)
        meth = {"PointSourceBehindJet": "tau_ps_behind_blob", "SSDisk": "tau_ss_disk", "SphericalShellBLR": "tau_blr",
                "RingDustTorus": "tau_dt"}[t] + ("_mu_s" if off else "")
        for tag in ("default grids", "changed grids"):
            if tag == "changed grids":
                sc.m(a, "set_mu", 70)
                sc.m(a, "set_phi", 30)
                sc.m(a, "set_l", 40)
                new = dict(l_tilde_size=40, l_size=40, u_size=80, mu=np_(sc, "linspace", -1, 1, 70), phi=sc.spec("targets:phi_grid", 30),
                           phi_re=sc.spec("targets:phi_grid", 30))
                if t == "PointSourceBehindJet":
                    new.pop("u_size")
                g.update({k: new[k] for k in gr if k in new})
            want = want_tau(sc, spec, nu, z, mu_s, [sc.attr(tg, p) for p in pars], r, g)
            expect_equal(chk, sc, f"{i}, {tag}", RULE, sc.m(a, meth, nu), want, [sc.where(a, meth)])
            expect_equal(chk, sc, f"{i}, {tag}, dispatch", RULE, sc.m(a, "tau", nu) if not off else tau_off(sc, a, nu), want, [sc.where(a, "tau")])
    chk.absorb(sc)


def tau_off(sc, a, nu):
    """tau under the hypothesis mu_s != 1"""
    r = sc.m(a, "tau", nu)
    c = al.eq0(al.sub(num_of(sc.attr(a, "mu_s")).node, al.ONE))
    if isinstance(r, PhiVal):
        return r.b if al.equal(r.c, c) else r.a
    n = num_of(r)
    return n.replace(node=al.set_ind(n.node, c.m[0][0], False))


def geometry(chk, sc):
    G_ = "agnpy.utils.geometry:"
    R, r = sc.q("R", "cm"), sc.q("r", "cm")
    p, m, ms = (sc.arr(x, "N", pos=False) for x in ("phi_re", "mu_re", "mu_s"))
    U = sc.arr("path", "N", unit="cm")
    with Instance(chk, "geometry"):
        vr = sc.spec("processes:vec_ring", R, r, p, U, ms)
        vs = sc.spec("processes:vec_shell", R, r, p, m, U, ms)
        for nm, args, want in (
                ("x_re_ring_mu_s", (R, r, p, U, ms), sc.spec("processes:length", vr)),
                ("x_re_shell_mu_s", (R, r, p, m, U, ms), sc.spec("processes:length", vs)),
                ("phi_mu_re_ring", (R, r, p, U, ms), (sc.spec("processes:azimuth", vr), sc.I.binop(__import__("ast").Div(), vr[2], sc.spec("processes:length", vr)))),
                ("phi_mu_re_shell", (R, r, p, m, U, ms), (sc.spec("processes:azimuth", vs), sc.I.binop(__import__("ast").Div(), vs[2], sc.spec("processes:length", vs)))),
                ("cos_psi", (ms, m, p), sc.spec("processes:cospsi", ms, m, p)),
                ("x_re_shell", (m, R, r), sc.spec("processes:shell_x", m, R, r)),
                ("mu_star_shell", (m, R, r), sc.spec("processes:shell_mu_star", m, R, r))):
            with Instance(chk, "geometry: " + nm):
                f = sc.get(G_ + nm)
                expect_equal(chk, sc, "geometry: " + nm, "distances and directions of the photons", sc.call(f, *args), want, [sc.where(f)], check_unit=False)


def synch(chk, nm):
    sc = Scenario(chk)
    with Instance(chk, f"synchrotron photons of a region, {nm}"):
        n = dist(sc, nm)
        b = blob(sc, n_e=n, gamma_e_size=sc.num("size_e", dt="i"))
        a = sc.call("agnpy.absorption:Absorption", b)
        nu = sc.q("nu_abs", "Hz", ("N",))
        g = lambda x: sc.attr(b, x)
        dn = sc.attr(n, "SSA_integrand")
        for tag, kw in (("default grid", {}), ("given grid", dict(nu_s_size=sc.num("nsize", dt="i"), delta_margin_low=sc.num("margin")))):
            sz = kw.get("nu_s_size", 200)
            margin = kw.get("delta_margin_low", HUNDREDTH)
            want = sc.spec("processes:tau_synch", nu, g("z"), g("d_L"), g("delta_D"), g("B"), g("R_b"), n, dn, sc.attr(n, "gamma_min"),
                           sc.attr(n, "gamma_max"), g("gamma_e"), sz, margin)
            expect_equal(chk, sc, f"synchrotron photons of a region, {nm}, {tag}", RULE, sc.m(a, "tau_on_synchrotron", b, nu, **kw), want,
                         [sc.where(a, "tau_on_synchrotron")])
        expect_equal(chk, sc, f"synchrotron photons of a region, {nm}, dispatch", RULE, sc.m(a, "tau", nu),
                     sc.spec("processes:tau_synch", nu, g("z"), g("d_L"), g("delta_D"), g("B"), g("R_b"), n, dn, sc.attr(n, "gamma_min"),
                             sc.attr(n, "gamma_max"), g("gamma_e"), 200, HUNDREDTH), [sc.where(a, "tau")])
    chk.absorb(sc)
