"""Value-flow analysis: the value of the synchrotron SED of electrons and protons,
of the self-absorption optical depth, of the delta approximation, of the peak
frequency and of the single-particle functions, analysed for symbolic inputs and
for each shape of distribution (through the static evaluation functions and
through the objects), is compared with the documented equation (specs/processes.py)
in the normal form of the value graph, including the grid and the axis of every
quadrature and a caller-supplied quadrature function."""
from dists import *

MINIMUM = 112
RULE = "documented synchrotron equation"


def run(chk):
    small(chk)
    chk.parallel([lambda c, nm=nm: one(c, nm) for nm in ALL_DISTS])


def one(chk, nm):
    sc = Scenario(chk)
    with Instance(chk, nm):
        static(chk, sc, nm)
        obj(chk, sc, nm)
    chk.absorb(sc)


def small(chk):
    sc = Scenario(chk)
    m_e, m_p = models.CONSTANTS["m_e"], models.CONSTANTS["m_p"]
    S = "agnpy.synchrotron.synchrotron:"
    x = sc.arr("x", "X")
    with Instance(chk, "angle-averaged integrand"):
        f = sc.get(S + "R")
        expect_equal(chk, sc, "angle-averaged integrand", RULE, sc.call(f, x), sc.spec("processes:R_synch", x), [sc.where(f)])
    for nmm, m in (("electron", m_e), ("proton", m_p)):
        B = sc.q("B", "G")
        Bc = sc.spec("processes:Bgauss", B)
        e, g = sc.arr("eps", "E"), sc.arr("g", "E")
        with Instance(chk, f"single {nmm}"):
            f = sc.get(S + "single_particle_synch_power")
            expect_equal(chk, sc, f"power of a single {nmm}", RULE, sc.call(f, Bc, e, g, mass=m), sc.spec("processes:power", Bc, e, g, m), [sc.where(f)])
            f = sc.get(S + "calc_x")
            expect_equal(chk, sc, f"reduced frequency, {nmm}", RULE, sc.call(f, Bc, e, g, mass=m), sc.spec("processes:x_synch", Bc, e, g, m), [sc.where(f)])
            f = sc.get(S + "nu_synch_peak")
            expect_equal(chk, sc, f"peak frequency, {nmm}", RULE, sc.call(f, B, g, mass=m), sc.spec("processes:nu_peak", B, g, m), [sc.where(f)])
    with Instance(chk, "attenuation"):
        f = sc.get(S + "tau_to_attenuation")
        t = sc.arr("tau", "N")
        expect_equal(chk, sc, "escape from an absorbing sphere", RULE, sc.call(f, t), sc.spec("processes:attenuation", t), [sc.where(f)])
    with Instance(chk, "defaults of the electron functions"):
        B = sc.q("B", "G")
        Bc = sc.spec("processes:Bgauss", B)
        e, g = sc.arr("eps", "E"), sc.arr("g", "E")
        f = sc.get(S + "single_particle_synch_power")
        expect_equal(chk, sc, "default particle", RULE, sc.call(f, Bc, e, g), sc.spec("processes:power", Bc, e, g, m_e), [sc.where(f)])
        f = sc.get(S + "nu_synch_peak")
        expect_equal(chk, sc, "default particle of the peak frequency", RULE, sc.call(f, B, g), sc.spec("processes:nu_peak", B, g, m_e), [sc.where(f)])
    chk.absorb(sc)


def base(sc):
    return dict(nu=sc.q("nu", userunit("myHz", u.Hz), ("N",)), z=sc.num("z"), d_L=sc.q("d_L", "cm"), delta_D=sc.num("delta_D"),
                B=sc.q("B", "mG"), R_b=sc.q("R_b", "cm"))


def static(chk, sc, nm):
    m_e, m_p = models.CONSTANTS["m_e"], models.CONSTANTS["m_p"]
    v = base(sc)
    n = dist(sc, nm)
    par = list(sc.I.iterate(sc.attr(n, "parameters")))
    integ = UserFunc("userIntegrator", "integrator")
    dn = sc.attr(n, "SSA_integrand")
    g = sc.arr("gamma", "G")
    for tag, kw, grid, it in (("default grid", {}, None, None), ("given grid", dict(gamma=g), g, None), ("given quadrature", dict(gamma=g, integrator=integ), g, integ)):
        gr = grid if grid is not None else sc.I.call(Ext("numpy.logspace"), [1, 9, 200], {})
        ex = [it] if it is not None else []
        for ssa in (False, True):
            with Instance(chk, f"{nm}, electrons, {tag}, ssa={ssa}"):
                f = sc.get("agnpy.synchrotron:Synchrotron")
                mk = sc.mark()
                got = sc.call(sc.attr(f, "evaluate_sed_flux"), v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, *par, ssa=ssa, **kw)
                if ssa:
                    want = sc.spec("processes:synch_ssa", v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, dn, gr, *ex)
                else:
                    want = sc.spec("processes:synch", v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, gr, m_e, *ex)
                expect_equal(chk, sc, f"{nm}: electron SED, {tag}, ssa={ssa}", RULE, got, want, [sc.where(f, "evaluate_sed_flux")])
                no_raises(chk, sc, f"{nm}: electron SED, {tag}, ssa={ssa}", mk)
        with Instance(chk, f"{nm}, tau, {tag}"):
            got = sc.call(sc.attr(f, "evaluate_tau_ssa"), v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, *par, **kw)
            want = sc.spec("processes:tau_ssa", v["nu"], v["z"], v["delta_D"], v["B"], v["R_b"], dn, gr, *ex)
            expect_equal(chk, sc, f"{nm}: self-absorption optical depth, {tag}", RULE, got, want, [sc.where(f, "evaluate_tau_ssa")])
        with Instance(chk, f"{nm}, protons, {tag}"):
            f2 = sc.get("agnpy.synchrotron:ProtonSynchrotron")
            got = sc.call(sc.attr(f2, "evaluate_sed_flux"), v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, *par, **kw)
            want = sc.spec("processes:synch", v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, gr, m_p, *ex)
            expect_equal(chk, sc, f"{nm}: proton SED, {tag}", RULE, got, want, [sc.where(f2, "evaluate_sed_flux")])
    with Instance(chk, f"{nm}, delta approximation"):
        got = sc.call(sc.attr(f, "evaluate_sed_flux_delta_approx"), v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n, *par)
        want = sc.spec("processes:synch_delta", v["nu"], v["z"], v["d_L"], v["delta_D"], v["B"], v["R_b"], n)
        expect_equal(chk, sc, f"{nm}: delta approximation", RULE, got, want, [sc.where(f, "evaluate_sed_flux_delta_approx")])


def obj(chk, sc, nm):
    m_e, m_p = models.CONSTANTS["m_e"], models.CONSTANTS["m_p"]
    n = dist(sc, nm)
    npr = dist(sc, nm, "_p", mass=m_p) if nm != "EmptyDistribution" else None
    b = blob(sc, n_e=n, n_p=npr, gamma_e_size=sc.num("size_e", dt="i"), gamma_p_size=sc.num("size_p", dt="i"))
    nu = sc.q("nu", "Hz", ("N",))
    a = lambda x: sc.attr(b, x)
    common = [nu, a("z"), a("d_L"), a("delta_D"), a("B"), a("R_b")]
    for ssa in (False, True):
        with Instance(chk, f"{nm}: object, ssa={ssa}"):
            s = sc.call("agnpy.synchrotron:Synchrotron", b, ssa=ssa)
            if ssa:
                want = sc.spec("processes:synch_ssa", *common, n, sc.attr(n, "SSA_integrand"), a("gamma_e"))
            else:
                want = sc.spec("processes:synch", *common, n, a("gamma_e"), m_e)
            expect_equal(chk, sc, f"{nm}: electron SED of the object, ssa={ssa}", RULE, sc.m(s, "sed_flux", nu), want, [sc.where(s, "sed_flux")])
    with Instance(chk, f"{nm}: object, delta"):
        expect_equal(chk, sc, f"{nm}: delta approximation of the object", RULE, sc.m(s, "sed_flux_delta_approx", nu),
                     sc.spec("processes:synch_delta", *common, n), [sc.where(s, "sed_flux_delta_approx")])
    if npr is not None:
        with Instance(chk, f"{nm}: proton object"):
            s = sc.call("agnpy.synchrotron:ProtonSynchrotron", b)
            want = sc.spec("processes:synch", *common, npr, a("gamma_p"), m_p)
            expect_equal(chk, sc, f"{nm}: proton SED of the object", RULE, sc.m(s, "sed_flux", nu), want, [sc.where(s, "sed_flux")])
