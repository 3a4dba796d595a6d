"""Value-flow analysis: the thermal SED of the disk and of the torus (static
evaluation functions and objects) are compared in the normal form of the value
graph with the documented black bodies (specs/targets.py): at redshift zero, at
redshift z (the emission at the frequency nu (1+z)), and normalised to the
luminosity of the target, with the distance of the redshift given."""
from dists import *

MINIMUM = 13
RULE = "documented thermal emission"
RULE2 = "redshift: nu F_nu(nu, z, d_L) = nu F_nu(nu (1+z), 0, d_L)"
RULE3 = "normalised to the luminosity of the target"
ZERO_ = Num(al.ZERO, None, (), "f", arr=False)


def redshift(chk, sc, inst, known, got, want, z, w):
    """want: at the source frequency"""
    if compare(got, want) is None:
        chk.ok(inst, RULE2)
    elif known and compare(got, sc.op(want, "/", sc.op(1, "+", z))) is None:
        chk.violate(known, RULE2, "the observed instead of the emitted frequency multiplies the flux density: low by 1 + z", w)
    else:
        expect_equal(chk, sc, inst, RULE2, got, want, w)


def run(chk):
    chk.parallel([disk, torus])


def disk(chk):
    sc = Scenario(chk)
    D = sc.get("agnpy.targets:SSDisk")
    w = [sc.where(D, "evaluate_multi_T_bb_sed")]
    wn = [sc.where(D, "evaluate_multi_T_bb_norm_sed")]
    nu, z = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z")
    p = [sc.q("M_BH", "M_sun"), sc.q("m_dot", "g s-1"), sc.q("R_in", "cm"), sc.q("R_out", "pc"), sc.q("d_L", "cm")]
    L, ms = sc.q("L", "erg s-1"), sc.num("mu_s")
    for tag, kw in (("", {}), (", inclined", dict(mu_s=ms))):
        m = kw.get("mu_s", 1)
        with Instance(chk, "disk" + tag):
            mk = sc.mark()
            expect_equal(chk, sc, "disk, redshift 0" + tag, RULE, sc.call(sc.attr(D, "evaluate_multi_T_bb_sed"), nu, ZERO_, *p, **kw),
                         sc.spec("targets:disk_sed", nu, *p, m), w)
            redshift(chk, sc, "disk, redshift z" + tag, None, sc.call(sc.attr(D, "evaluate_multi_T_bb_sed"), nu, z, *p, **kw),
                     sc.spec("targets:disk_sed_z", nu, z, *p, m), z, w)
            expect_equal(chk, sc, "disk, normalised" + tag, RULE3, sc.call(sc.attr(D, "evaluate_multi_T_bb_norm_sed"), nu, z, L, *p, **kw),
                         sc.spec("targets:disk_norm", nu, z, L, *p, m), wn)
            tg = target(sc, "SSDisk")
            a = lambda x: sc.attr(tg, x)
            mdot = sc.spec("targets:m_dot", a("L_disk"), a("eta"))
            expect_equal(chk, sc, "disk, object" + tag, RULE3, sc.m(tg, "sed_flux", nu, z, **kw),
                         sc.spec("targets:disk_norm", nu, z, a("L_disk"), a("M_BH"), mdot, a("R_in"), a("R_out"), sc.spec("targets:d_L", z), m),
                         [sc.where(tg, "sed_flux")] + wn)
            no_raises(chk, sc, "disk" + tag, mk)
    chk.absorb(sc)


def torus(chk):
    sc = Scenario(chk)
    D = sc.get("agnpy.targets:RingDustTorus")
    w = [sc.where(D, "evaluate_bb_sed")]
    wn = [sc.where(D, "evaluate_bb_norm_sed")]
    nu, z = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z")
    p = [sc.q("T_dt", "K"), sc.q("R_dt", "pc"), sc.q("d_L", "cm")]
    L = sc.q("L", "erg s-1")
    known = "torus: the redshifted SED is low by 1 + z"
    src = sc.op(nu, "*", sc.op(1, "+", z))
    with Instance(chk, "torus"):
        mk = sc.mark()
        S, N = sc.attr(D, "evaluate_bb_sed"), sc.attr(D, "evaluate_bb_norm_sed")
        expect_equal(chk, sc, "torus, redshift 0", RULE, sc.call(S, nu, ZERO_, *p), sc.spec("targets:torus_sed", nu, *p), w)
        expect_equal(chk, sc, "torus, redshift 0, normalised", RULE3, sc.call(N, nu, ZERO_, L, *p), sc.spec("targets:torus_norm", nu, L, *p), wn)
        redshift(chk, sc, "torus, redshift z", known, sc.call(S, nu, z, *p), sc.spec("targets:torus_sed", src, *p), z, w)
        redshift(chk, sc, "torus, redshift z, normalised", known, sc.call(N, nu, z, L, *p), sc.spec("targets:torus_norm", src, L, *p), z, wn)
        tg = target(sc, "RingDustTorus")
        a = lambda x: sc.attr(tg, x)
        redshift(chk, sc, "torus, object", known, sc.m(tg, "sed_flux", nu, z),
                 sc.spec("targets:torus_norm", src, sc.op(a("xi_dt"), "*", a("L_disk")), a("T_dt"), a("R_dt"), sc.spec("targets:d_L", z)), z,
                 [sc.where(tg, "sed_flux")] + wn)
        no_raises(chk, sc, "torus", mk)
    chk.absorb(sc)
