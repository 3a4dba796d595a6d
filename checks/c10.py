"""Value-flow analysis: each SED, energy density and optical depth is analysed for
given inputs and for the inputs with one of them multiplied by a symbolic factor;
the ratio must be the documented power of that factor (normalisation of the
particles, radius of the region, luminosity distance, luminosity of the target)."""
from dists import *
from c09 import TAU

MINIMUM = 166
RULE = "documented power of the factor"


def run(chk):
    chk.parallel([lambda c, n=n: synch(c, n) for n in ALL_DISTS] + [lambda c, t=t: ec(c, t) for t in TARGETS] + [lambda c, t=t: tau(c, t) for t in TAU])


def synch(chk, nm):
    sc = Scenario(chk)
    k = sc.num("factor")
    v0 = dict(nu=sc.q("nu", userunit("myHz", u.Hz), ("N",)), z=sc.num("z"), d_L=sc.q("d_L", "cm"), delta_D=sc.num("delta_D"), B=sc.q("B", "G"), R_b=sc.q("R_b", "cm"))
    n0 = dist(sc, nm)
    if nm == "InterpolatedDistribution":
        n1 = dist(sc, nm, norm=sc.op(sc.num("norm"), "*", k))
    else:
        n1 = dist(sc, nm, k=sc.op(sc.q("k", "cm-3"), "*", k))
    par = lambda n: list(sc.I.iterate(sc.attr(n, "parameters")))
    S, P, C = (sc.get(x) for x in ("agnpy.synchrotron:Synchrotron", "agnpy.synchrotron:ProtonSynchrotron", "agnpy.compton:SynchrotronSelfCompton"))
    for cls, fn, kw, pk, pR, pd in ((S, "evaluate_sed_flux", {}, 1, 3, -2), (S, "evaluate_sed_flux_delta_approx", {}, 1, 3, -2), (P, "evaluate_sed_flux", {}, 1, 3, -2),
                                    (S, "evaluate_tau_ssa", {}, 1, 1, 0), (S, "evaluate_sed_flux", dict(ssa=True), None, None, -2),
                                    (C, "evaluate_sed_flux", {}, 2, 4, -2), (C, "evaluate_sed_flux", dict(ssa=True), None, None, -2)):
        f = sc.attr(cls, fn)
        tag = f"{cls.name} {fn}{', self-absorbed' if kw else ''} of {nm}"
        w = [sc.where(cls, fn)]
        with Instance(chk, tag):
            base = sc.call(f, *v0.values(), n0, *par(n0), **kw)
            for what, p, v, n in (("particles", pk, v0, n1), ("radius", pR, dict(v0, R_b=sc.op(v0["R_b"], "*", k)), n0), ("distance", pd, dict(v0, d_L=sc.op(v0["d_L"], "*", k)), n0)):
                if p is None:
                    continue
                i = f"{tag}: {what}"
                with Instance(chk, i):
                    got = sc.call(f, *v.values(), n, *par(n), **kw)
                    expect_equal(chk, sc, i, RULE, got, sc.op(base, "*", sc.spec("relations:power", k, p)), w)
    chk.absorb(sc)


SCALE = {"CMB": ["u_0"], "PointSourceBehindJet": ["L_0"], "SphericalShellBLR": ["L_disk", "xi_line"], "RingDustTorus": ["L_disk", "xi_dt"], "SSDisk": []}


def ec(chk, t):
    fn, spec, pars, has_r = EC[t]
    sc = Scenario(chk)
    k = sc.num("factor")
    C = sc.get("agnpy.compton:ExternalCompton")
    v0 = dict(nu=sc.q("nu", "Hz", ("N",)), z=sc.num("z"), d_L=sc.q("d_L", "cm"), delta_D=sc.num("delta_D"), mu_s=sc.num("mu_s", pos=False), R_b=sc.q("R_b", "cm"))
    tp = {p: sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars}
    r = [sc.q("r", "pc")] if has_r else []
    f = sc.attr(C, fn)
    for nm in ("PowerLaw", "ExpCutoffBrokenPowerLaw"):
        n = dist(sc, nm)
        n1 = dist(sc, nm, k=sc.op(sc.q("k", "cm-3"), "*", k))
        par = lambda n: list(sc.I.iterate(sc.attr(n, "parameters")))
        with Instance(chk, f"{t}, {nm}: external Compton SED"):
            base = sc.call(f, *v0.values(), *tp.values(), *r, n, *par(n))
            for what, p, v, tq, nn in [("particles", 1, v0, tp, n1), ("radius", 3, dict(v0, R_b=sc.op(v0["R_b"], "*", k)), tp, n), ("distance", -2, dict(v0, d_L=sc.op(v0["d_L"], "*", k)), tp, n)] + \
                    [(x, 1, v0, dict(tp, **{x: sc.op(tp[x], "*", k)}), n) for x in SCALE[t]]:
                i = f"{t}, {nm}: external Compton SED: {what}"
                with Instance(chk, i):
                    got = sc.call(f, *v.values(), *tq.values(), *r, nn, *par(nn))
                    expect_equal(chk, sc, i, RULE, got, sc.op(base, "*", sc.spec("relations:power", k, p)), [sc.where(C, fn)])
    if t != "CMB":
        density(chk, sc, t, k)
    chk.absorb(sc)


def density(chk, sc, t, k):
    """energy density of the target at a distance, and in the frame of a region"""
    T = "agnpy.targets:"
    L, xi, r = sc.q("L", "erg s-1"), sc.num("xi"), sc.q("r", "cm")
    mk = {
        "PointSourceBehindJet": lambda L, xi: sc.call(T + t, L, sc.num("epsilon_0")),
        "SSDisk": lambda L, xi: sc.call(T + t, sc.q("M_BH", "g"), L, sc.num("eta"), sc.q("R_in", "cm"), sc.q("R_out", "cm")),
        "SphericalShellBLR": lambda L, xi: sc.call(T + t, L, xi, "Lyalpha", sc.q("R_line", "cm")),
        "RingDustTorus": lambda L, xi: sc.call(T + t, L, xi, sc.q("T_dt", "K"), sc.q("R_dt", "cm")),
    }[t]
    b = blob(sc)
    for fr, a in (("", [r]), (" in the frame of a region", [r, b])):
        i = f"{t}: energy density{fr}"
        with Instance(chk, i):
            base = sc.m(mk(L, xi), "u", *a)
            for what, o in [("luminosity", mk(sc.op(L, "*", k), xi))] + ([("covering factor", mk(L, sc.op(xi, "*", k)))] if t in ("SphericalShellBLR", "RingDustTorus") else []):
                expect_equal(chk, sc, f"{i}: {what}", RULE, sc.m(o, "u", *a), sc.op(base, "*", k), [sc.where(o, "u")])


def tau(chk, t):
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    k = sc.num("factor")
    A = sc.get("agnpy.absorption:Absorption")
    nu, z = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z")
    for fn, pars in TAU[t]:
        tp = {p: sc.q(p, EC_UNITS[p]) if p in EC_UNITS else sc.num(p) for p in pars}
        f, ms, r = sc.attr(A, fn), sc.num("mu_s", pos=False), sc.q("r", "pc")
        with Instance(chk, f"{t}: {fn}"):
            base = sc.call(f, nu, z, ms, *tp.values(), r)
            for x in SCALE[t]:
                i = f"{t}: {fn}: {x}"
                with Instance(chk, i):
                    got = sc.call(f, nu, z, ms, *dict(tp, **{x: sc.op(tp[x], "*", k)}).values(), r)
                    expect_equal(chk, sc, i, RULE, got, sc.op(base, "*", k), [sc.where(A, fn)])
    chk.absorb(sc)
