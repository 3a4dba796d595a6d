"""Value-flow analysis: each SED and each optical depth is analysed twice, for the
observed frequency, redshift and Doppler factor given and for the equivalent
inputs in the frame of the source (or with a unit Doppler factor), and the two
value graphs are compared in normal form: the redshift enters through the
frequency only, the boost as documented for each process."""
from dists import *

MINIMUM = 47
RULE = "transformation of frequency and flux between frames"
TAU = {
    "PointSourceBehindJet": [("evaluate_tau_ps_behind_blob", ["epsilon_0", "L_0"]), ("evaluate_tau_ps_behind_blob_mu_s", ["epsilon_0", "L_0"])],
    "SSDisk": [("evaluate_tau_ss_disk", ["M_BH", "L_disk", "eta", "R_in", "R_out"])],
    "SphericalShellBLR": [("evaluate_tau_blr", ["L_disk", "xi_line", "epsilon_line", "R_line"]), ("evaluate_tau_blr_mu_s", ["L_disk", "xi_line", "epsilon_line", "R_line"])],
    "RingDustTorus": [("evaluate_tau_dt", ["L_disk", "xi_dt", "epsilon_dt", "R_dt"]), ("evaluate_tau_dt_mu_s", ["L_disk", "xi_dt", "epsilon_dt", "R_dt"])],
}


def run(chk):
    chk.parallel([lambda c, n=n: synch(c, n) for n in ALL_DISTS] + [lambda c, t=t: ec(c, t) for t in TARGETS] + [lambda c, t=t: tau(c, t) for t in TAU])


def synch(chk, nm):
    sc = Scenario(chk)
    n = dist(sc, nm)
    par = list(sc.I.iterate(sc.attr(n, "parameters")))
    nu, z, d = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z"), sc.num("delta_D")
    dL, dL0, B, R = sc.q("d_L", "cm"), sc.q("d_L0", "cm"), sc.q("B", "G"), sc.q("R_b", "cm")
    rest = sc.spec("relations:comoving", nu, z, d)
    boost = sc.spec("relations:boost", d, dL, dL0)
    for cls, kws in (("Synchrotron", (dict(ssa=False), dict(ssa=True))), ("ProtonSynchrotron", ({},))):
        C = sc.get("agnpy.synchrotron:" + cls)
        f = sc.attr(C, "evaluate_sed_flux")
        for kw in kws:
            i = f"{cls} of {nm}{', self-absorbed' if kw.get('ssa') else ''}: frame of the region"
            with Instance(chk, i):
                got = sc.call(f, nu, z, dL, d, B, R, n, *par, **kw)
                want = sc.op(boost, "*", sc.call(f, rest, 0, dL0, 1, B, R, n, *par, **kw))
                expect_equal(chk, sc, i, RULE, got, want, [sc.where(C, "evaluate_sed_flux")])
    C = sc.get("agnpy.synchrotron:Synchrotron")
    i = f"Synchrotron of {nm}: optical depth in the frame of the region"
    with Instance(chk, i):
        f = sc.attr(C, "evaluate_tau_ssa")
        expect_equal(chk, sc, i, RULE, sc.call(f, nu, z, dL, d, B, R, n, *par), sc.call(f, rest, 0, dL0, 1, B, R, n, *par), [sc.where(C, "evaluate_tau_ssa")])
    i = f"Synchrotron of {nm}: delta approximation in the frame of the region"
    with Instance(chk, i):
        f = sc.attr(C, "evaluate_sed_flux_delta_approx")
        expect_equal(chk, sc, i, RULE, sc.call(f, nu, z, dL, d, B, R, n, *par), sc.op(boost, "*", sc.call(f, rest, 0, dL0, 1, B, R, n, *par)),
                     [sc.where(C, "evaluate_sed_flux_delta_approx")])
    chk.absorb(sc)


def ec(chk, t):
    fn, spec, pars, has_r = EC[t]
    sc = Scenario(chk)
    C = sc.get("agnpy.compton:ExternalCompton")
    nu, z, d = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z"), sc.num("delta_D")
    dL, dL0, R, ms = sc.q("d_L", "cm"), sc.q("d_L0", "cm"), sc.q("R_b", "cm"), sc.num("mu_s", pos=False)
    tp = [sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars] + ([sc.q("r", "pc")] if has_r else [])
    for nm in ("PowerLaw", "LogParabola"):
        n = dist(sc, nm)
        par = list(sc.I.iterate(sc.attr(n, "parameters")))
        i = f"{t}, {nm}: external Compton SED in the frame of the host"
        with Instance(chk, i):
            f = sc.attr(C, fn)
            got = sc.call(f, nu, z, dL, d, ms, R, *tp, n, *par)
            want = sc.op(sc.spec("relations:boost", 1, dL, dL0), "*", sc.call(f, sc.spec("relations:comoving", nu, z, 1), 0, dL0, d, ms, R, *tp, n, *par))
            expect_equal(chk, sc, i, RULE, got, want, [sc.where(C, fn)])
    chk.absorb(sc)


def tau(chk, t):
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    A = sc.get("agnpy.absorption:Absorption")
    nu, z = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z")
    for fn, pars in TAU[t]:
        i = f"{t}: {fn} in the frame of the host"
        with Instance(chk, i):
            tp = [sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars] + [sc.q("r", "pc")]
            f, ms = sc.attr(A, fn), sc.num("mu_s", pos=False)
            expect_equal(chk, sc, i, RULE, sc.call(f, nu, z, ms, *tp), sc.call(f, sc.spec("relations:comoving", nu, z, 1), 0, ms, *tp), [sc.where(A, fn)])
    chk.absorb(sc)
