"""Value-flow analysis of the dispatch and of the guards: for targets, masses, units and
directions that are not supported every path of the call must end with the documented
exception; user-defined subclasses of the supported targets must give the values of
their parent class."""
from dists import *

MINIMUM = 67
RULE = "unsupported input raises"
RULE2 = "subclass evaluated as its parent"
USER = """
from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus
from agnpy.emission_regions import Blob


class MyCMB(CMB):
    pass


class MyPointSourceBehindJet(PointSourceBehindJet):
    pass


class MySSDisk(SSDisk):
    pass


class MySphericalShellBLR(SphericalShellBLR):
    pass


class MyRingDustTorus(RingDustTorus):
    pass


class MyBlob(Blob):
    pass


class Stranger:
    def __init__(self, L, R):
        self.L_disk = L
        self.R_dt = R
        self.R_line = R
        self.R_in = R
        self.R_out = R
"""


def run(chk):
    chk.parallel([ec, tau, particles])


def ec(chk):
    sc = Scenario(chk)
    sc.I.load_source("user_classes", USER, "user_classes.py")
    C = "agnpy.compton:ExternalCompton"
    nu, r = sc.q("nu", "Hz", ("N",)), sc.q("r", "cm")
    w = [sc.where(C, "sed_flux")]
    b = blob(sc)
    for name, t in others(sc, b):
        expect_raises(chk, sc, f"external Compton on {name}", ("NotImplementedError", "TypeError", "ValueError"),
                      lambda: sc.m(sc.call(C, b, t(), r), "sed_flux", nu), w, RULE)
    for t in TARGETS:
        i = f"external Compton on a subclass of {t}"
        with Instance(chk, i):
            got = sc.m(sc.call(C, b, sub(sc, t), r), "sed_flux", nu)
            expect_equal(chk, sc, i, RULE2, got, sc.m(sc.call(C, b, target(sc, t), r), "sed_flux", nu), w)
    chk.absorb(sc)


def others(sc, b):
    yield "a foreign object", lambda: sc.call("user_classes:Stranger", sc.q("L", "erg s-1"), sc.q("R", "cm"))
    yield "nothing", lambda: None


def sub(sc, name):
    return target(sc, name, cls="user_classes:My")


def tau(chk):
    sc = Scenario(chk)
    sc.I.load_source("user_classes", USER, "user_classes.py")
    sc.I.opaque_shifts = True
    C = "agnpy.absorption:Absorption"
    nu, r = sc.q("nu", "Hz", ("N",)), sc.q("r", "cm")
    w = [sc.where(C, "tau")]
    b = blob(sc)
    mus = number("1/2")
    for name, t in list(others(sc, b)) + [("CMB", lambda: target(sc, "CMB"))]:
        for k, kw in (("", {}), (", off axis", dict(mu_s=mus))):
            for f in ("tau", "absorption", "absorption_homogeneous"):
                expect_raises(chk, sc, f"{f} on {name}{k}", ("NotImplementedError", "TypeError", "ValueError"), lambda: sc.m(sc.call(C, t(), r=r, **kw), f, nu), w, RULE)
    for f in ("tau", "absorption", "absorption_homogeneous"):
        expect_raises(chk, sc, f"{f} on the disk off axis", ("NotImplementedError", "ValueError"), lambda: sc.m(sc.call(C, target(sc, "SSDisk"), r=r, mu_s=mus), f, nu), w, RULE)
    for t in TARGETS[1:]:
        for k, kw in (("", {}), (", off axis", dict(mu_s=mus))):
            if t == "SSDisk" and kw:
                continue
            i = f"tau on a subclass of {t}{k}"
            with Instance(chk, i):
                got = sc.m(sc.call(C, sub(sc, t), r=r, z=sc.num("z"), **kw), "tau", nu)
                expect_equal(chk, sc, i, RULE2, got, sc.m(sc.call(C, target(sc, t), r=r, z=sc.num("z"), **kw), "tau", nu), w)
            expect_raises(chk, sc, f"no distance, subclass of {t}{k}", ("ValueError",), lambda: sc.call(C, sub(sc, t), **kw), [sc.where(C, "__init__")], RULE)
    i = "tau on a subclass of Blob"
    with Instance(chk, i):
        kw = dict(R_b=sc.q("R_b", "cm"), z=sc.num("z"), delta_D=sc.num("delta_D"), Gamma=sc.num("Gamma"), B=sc.q("B", "G"), n_e=dist(sc, "PowerLaw"))
        got = sc.m(sc.call(C, sc.call("user_classes:MyBlob", **kw)), "tau", nu)
        expect_equal(chk, sc, i, RULE2, got, sc.m(sc.call(C, b), "tau", nu), w)
    chk.absorb(sc)


def particles(chk):
    sc = Scenario(chk)
    for nm in ALL_DISTS:
        for k, m in (("neutron", models.CONSTANTS["m_n"]), ("another mass", sc.q("m_x", "g"))):
            if k == "neutron" or nm != "InterpolatedDistribution":
                expect_raises(chk, sc, f"{nm} of {k}", ("ValueError",), lambda: dist(sc, nm, mass=m), [sc.where("agnpy.spectra.spectra:ParticleDistribution", "__init__")], RULE)
    E = "agnpy.utils.conversion:epsilon_equivalency"
    expect_raises(chk, sc, "photon energy in units of another mass", ("ValueError",), lambda: sc.call(E, models.CONSTANTS["m_n"]), [sc.where(E)], RULE)
    D = "agnpy.spectra:InterpolatedDistribution"
    for un in ("cm-2", "m-3", "erg", ""):
        expect_raises(chk, sc, f"interpolated densities in {un or 'no unit'}", ("ValueError",), lambda: sc.call(D, sc.arr("g", "G"), sc.q("n", u.Unit(un), ("G",))), [sc.where(D, "__init__")], RULE)
    B = "agnpy.emission_regions:Blob"
    for k, d in (("zero", number(0)), ("negative", number("-3/2"))):
        expect_raises(chk, sc, f"Doppler factor {k}", ("ValueError",), lambda: blob(sc, delta_D=d), [sc.where(B, "__init__")], RULE)
    p = blob(sc)
    expect_raises(chk, sc, "N_p without protons", ("AttributeError",), lambda: sc.m(p, "N_p", sc.arr("gamma", "G")), [sc.where(B, "N_p")], RULE)
    for a in ("n_p", "n_p_tot", "gamma_p", "W_p", "u_p", "P_jet_ke_p", "total_proton_energy"):
        if p.cls.lookup(a)[0] is not None:
            expect_raises(chk, sc, f"{a} without protons", ("AttributeError",), lambda: sc.attr(p, a), [sc.where(B, a)], RULE)
    chk.absorb(sc)
