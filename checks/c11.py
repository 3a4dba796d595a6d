"""Value-flow analysis: differential fluxes, integral fluxes, integral energy fluxes
and luminosities of every radiative process are compared, in the normal form of the
value graph, with their definition from the SED of the same object, for limits and
frequencies given as frequencies, energies or wavelengths."""
from dists import *

MINIMUM = 80
RULE = "definition from the SED of the same object"


def build(sc, what):
    b = blob(sc, n_p=dist(sc, "PowerLaw", "_p", mass=models.CONSTANTS["m_p"]))
    if what == "Synchrotron":
        return b, sc.call("agnpy.synchrotron:Synchrotron", b)
    if what == "Synchrotron, self-absorbed":
        return b, sc.call("agnpy.synchrotron:Synchrotron", b, ssa=True)
    if what == "ProtonSynchrotron":
        return b, sc.call("agnpy.synchrotron:ProtonSynchrotron", b)
    if what == "SynchrotronSelfCompton":
        return b, sc.call("agnpy.compton:SynchrotronSelfCompton", b)
    return b, sc.call("agnpy.compton:ExternalCompton", b, target(sc, what), sc.q("r", "cm"))


def run(chk):
    chk.parallel([lambda c, w=w: one(c, w) for w in ["Synchrotron", "Synchrotron, self-absorbed", "ProtonSynchrotron", "SynchrotronSelfCompton"] + TARGETS])


def one(chk, what):
    sc = Scenario(chk)
    with Instance(chk, what):
        b, o = build(sc, what)
        nu = sc.q("nu", "Hz", ("N",))
        has = lambda m: o.cls.lookup(m)[0] is not None
        i = f"{what}: differential flux"
        with Instance(chk, i):
            expect_equal(chk, sc, i, RULE, sc.m(o, "diff_energy_flux", nu), sc.spec("relations:diff_energy_flux", nu, sc.m(o, "sed_flux", nu)), [sc.where(o, "diff_energy_flux")])
        lo, hi = sc.q("nu_lo", "Hz"), sc.q("nu_hi", "Hz")
        e0, e1 = sc.q("E_lo", "keV"), sc.q("E_hi", "keV")
        for tag, a, z, n in (("frequencies", lo, hi, None), ("energies", e0, e1, None), ("given number of points", lo, hi, sc.num("points", dt="i"))):
            fa, fz = (sc.spec("relations:of_energy", a), sc.spec("relations:of_energy", z)) if tag == "energies" else (a, z)
            grid = sc.spec("relations:nu_grid", fa, fz, 50 if n is None else n)
            kw = {} if n is None else dict(nu_points=n)
            sed = None
            for m, s in (("energy_flux_integral", "energy_flux"), ("flux_integral", "flux")):
                i = f"{what}: {m}, {tag}"
                with Instance(chk, i):
                    sed = sed or sc.m(o, "sed_flux", grid)
                    expect_equal(chk, sc, i, RULE, sc.m(o, m, a, z, **kw), sc.spec("relations:" + s, grid, sed), [sc.where(o, m)])
        i = f"{what}: luminosity"
        if has("sed_luminosity"):
            with Instance(chk, i):
                expect_equal(chk, sc, i, RULE, sc.m(o, "sed_luminosity", nu), sc.spec("relations:luminosity", sc.attr(b, "d_L"), sc.m(o, "sed_flux", nu)), [sc.where(o, "sed_luminosity")])
        if has("sed_peak_flux"):
            i = f"{what}: peak of the SED"
            with Instance(chk, i):
                sed = sc.m(o, "sed_flux", nu)
                expect_equal(chk, sc, i, RULE, sc.m(o, "sed_peak_flux", nu), sc.np("max", sed), [sc.where(o, "sed_peak_flux")])
            i = f"{what}: frequency of the peak"
            with Instance(chk, i):
                expect_equal(chk, sc, i, RULE, sc.m(o, "sed_peak_nu", nu), sc.item(nu, sc.np("argmax", sed)), [sc.where(o, "sed_peak_nu")])
    chk.absorb(sc)
