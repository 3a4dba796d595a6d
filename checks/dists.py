"""Builders of symbolic particle distributions, blobs and targets."""
from vsa.kit import *

# constructor parameters (name, unit); all positive except the indices
ANALYTIC = {
    "PowerLaw": ["k", "p", "gamma_min", "gamma_max"],
    "BrokenPowerLaw": ["k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"],
    "LogParabola": ["k", "p", "q", "gamma_0", "gamma_min", "gamma_max"],
    "ExpCutoffPowerLaw": ["k", "p", "gamma_c", "gamma_min", "gamma_max"],
    "ExpCutoffBrokenPowerLaw": ["k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"],
}
SIGNED = {"p", "p1", "p2", "q"}
ALL_DISTS = list(ANALYTIC) + ["InterpolatedDistribution"]


def params(sc, name, suffix=""):
    return {p: (sc.q("k" + suffix, "cm-3") if p == "k" else sc.num(p + suffix, p not in SIGNED)) for p in ANALYTIC[name]}


def dist(sc, name, suffix="", mass=None, integrator=None, **over):
    """instance of a distribution with symbolic parameters"""
    kw = {}
    if mass is not None:
        kw["mass"] = mass
    if integrator is not None:
        kw["integrator"] = integrator
    c = sc.get("agnpy.spectra:" + name)
    if name == "InterpolatedDistribution":
        g = sc.arr("gamma_in" + suffix, "IN" + suffix)
        n = sc.arr("n_in" + suffix, "IN" + suffix, unit="cm-3")
        kw.setdefault("norm", sc.num("norm" + suffix))
        kw.update(over)
        return sc.call(c, g, n, **kw)
    if name == "EmptyDistribution":
        return sc.call(c, gamma_min=sc.num("gamma_min" + suffix), gamma_max=sc.num("gamma_max" + suffix))
    kw.update(params(sc, name, suffix))
    kw.update(over)
    return sc.call(c, **kw)


def blob(sc, n_e=None, n_p=None, **over):
    kw = dict(R_b=sc.q("R_b", "cm"), z=sc.num("z"), delta_D=sc.num("delta_D"), Gamma=sc.num("Gamma"),
              B=sc.q("B", "G"), n_e=n_e if n_e is not None else dist(sc, "PowerLaw"))
    if n_p is not None:
        kw["n_p"] = n_p
    kw.update(over)
    return sc.call("agnpy.emission_regions:Blob", **kw)


def target(sc, name, suffix="", **over):
    """instance of a photon target with symbolic parameters"""
    T = over.pop("cls", "agnpy.targets:")
    s = suffix
    if name == "CMB":
        return sc.call(T + "CMB", sc.num("z_cmb" + s))
    if name == "PointSourceBehindJet":
        return sc.call(T + name, sc.q("L_0" + s, "erg s-1"), sc.num("epsilon_0" + s))
    if name == "SSDisk":
        return sc.call(T + name, sc.q("M_BH" + s, "g"), sc.q("L_disk" + s, "erg s-1"), sc.num("eta" + s), sc.q("R_in" + s, "cm"), sc.q("R_out" + s, "cm"), **over)
    if name == "SphericalShellBLR":
        return sc.call(T + name, sc.q("L_disk" + s, "erg s-1"), sc.num("xi_line" + s), over.pop("line", "Lyalpha"), sc.q("R_line" + s, "cm"))
    if name == "RingDustTorus":
        return sc.call(T + name, sc.q("L_disk" + s, "erg s-1"), sc.num("xi_dt" + s), sc.q("T_dt" + s, "K"), sc.q("R_dt" + s, "cm"))
    raise ValueError(name)


TARGETS = ["CMB", "PointSourceBehindJet", "SSDisk", "SphericalShellBLR", "RingDustTorus"]
# static evaluation function of the external Compton, its target parameters, and whether it takes the distance
EC = {
    "CMB": ("evaluate_sed_flux_iso_mono", "ec_iso", ["epsilon_0", "u_0"], False),
    "PointSourceBehindJet": ("evaluate_sed_flux_ps_behind_jet", "ec_ps", ["epsilon_0", "L_0"], True),
    "SSDisk": ("evaluate_sed_flux_ss_disk", "ec_disk", ["M_BH", "L_disk", "eta", "R_in", "R_out"], True),
    "SphericalShellBLR": ("evaluate_sed_flux_blr", "ec_blr", ["L_disk", "xi_line", "epsilon_line", "R_line"], True),
    "RingDustTorus": ("evaluate_sed_flux_dt", "ec_dt", ["L_disk", "xi_dt", "epsilon_dt", "R_dt"], True),
}
EC_UNITS = dict(u_0="erg cm-3", L_0="erg s-1", M_BH="g", L_disk="erg s-1", R_in="cm", R_out="cm", R_line="cm", R_dt="cm")
EC_GRIDS = {"CMB": ["gamma", "mu", "phi"], "PointSourceBehindJet": ["gamma"], "SSDisk": ["gamma", "mu_size", "phi"],
            "SphericalShellBLR": ["gamma", "mu", "phi"], "RingDustTorus": ["gamma", "phi"]}
