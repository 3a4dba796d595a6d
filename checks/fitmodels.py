"""Construction of the fit models with symbolic parameters."""
from dists import *

SCEN = {"ssc": None, "ec blr": ("blr",), "ec dt": ("dt",), "ec blr dt": ("blr", "dt"), "ec dt blr": ("dt", "blr")}
REGION = {"z": "", "delta_D": "", "log10_B": "", "t_var": "s"}
REGION_EC = {"mu_s": "", "log10_r": ""}
DISK = {"log10_L_disk": "", "M_BH": "g", "m_dot": "g s-1", "R_in": "cm", "R_out": "cm"}
BLR = {"xi_line": "", "lambda_line": "Angstrom", "R_line": "cm"}
DT = {"xi_dt": "", "T_dt": "K", "R_dt": "cm"}
LOGUNIT = {"log10_B": "G", "log10_r": "cm", "log10_L_disk": "erg s-1"}
SPEC = dict(ANALYTIC, InterpolatedDistribution=["norm", "gamma_min", "gamma_max"])
LINEAR = {"p", "p1", "p2", "q"}


def fitscenario(chk):
    return Scenario(chk, stubs=fit_stubs())


def model(sc, scen, n_e, ssa, backend, **kw):
    if scen == "ssc":
        return sc.call("agnpy.fit.models:SynchrotronSelfComptonModel", n_e, ssa=ssa, backend=backend, **kw)
    return sc.call("agnpy.fit.models:ExternalComptonModel", n_e, sc.I.new_list(list(SCEN[scen])), ssa=ssa, backend=backend, **kw)


def plain(scen):
    """names and units of the parameters that do not belong to the distribution"""
    d = dict(REGION)
    if SCEN[scen] is not None:
        d.update(REGION_EC)
        d.update(DISK)
        if "blr" in SCEN[scen]:
            d.update(BLR)
        if "dt" in SCEN[scen]:
            d.update(DT)
    return d


def par(sc, m, name, backend):
    if backend == "gammapy":
        return sc.item(sc.attr(m, "parameters"), name)
    return sc.attr(m, name)


def value(sc, m, name, backend):
    return sc.attr(par(sc, m, name, backend), "value" if backend == "gammapy" else "val")


def assign(sc, m, name, backend, v):
    if backend == "gammapy":
        sc.set(par(sc, m, name, backend), "value", v)
    else:
        sc.set(m, name, v)


def ten(sc, x):
    return sc.op(number(10), "**", x)


def unit(sc, x, un):
    return sc.op(x, "*", U(un)) if un is not None else x


def where(sc, scen, backend):
    k = {("ssc", "gammapy"): "agnpy.fit.gammapy_wrapper:SynchrotronSelfComptonSpectralModel", ("ssc", "sherpa"): "agnpy.fit.sherpa_wrapper:SynchrotronSelfComptonRegriddableModel1D",
         ("ec", "gammapy"): "agnpy.fit.gammapy_wrapper:ExternalComptonSpectralModel", ("ec", "sherpa"): "agnpy.fit.sherpa_wrapper:ExternalComptonRegriddableModel1D"}[(scen.split()[0], backend)]
    return [sc.where(k, "evaluate" if backend == "gammapy" else "calc")]


def names(d):
    """names of the fitted parameters of a distribution"""
    return [p if p in LINEAR else "log10_" + p for p in SPEC[d]]


def fresh(sc, m, d, scen, backend, tag, norm=True):
    """give every parameter a new symbolic value; physical values by name and distribution arguments"""
    P, args = {}, []
    for p, n in zip(SPEC[d], names(d)):
        s = sc.num(f"{tag}{n}", False)
        assign(sc, m, n, backend, s)
        v = ten(sc, s) if n != p else s
        args.append(unit(sc, v, "cm-3") if p == "k" else v)
    for n, un in plain(scen).items():
        log = n.startswith("log10_")
        s = sc.num(tag + n, not log)
        assign(sc, m, n, backend, s)
        P[n[6:] if log else n] = unit(sc, ten(sc, s), LOGUNIT[n]) if log else unit(sc, s, un or None)
    if backend == "gammapy" and norm:
        P["norm"] = sc.num(tag + "norm")
        assign(sc, m, "norm", backend, P["norm"])
    return P, args


def sed(sc, m, backend, E_, x):
    """SED of the model at the energies"""
    if backend == "gammapy":
        f = sc.I.call(m, [E_], {})
        return sc.op(f, "*", sc.op(E_, "**", 2))
    return sc.I.call(m, [x], {})


def processes(sc):
    """the emission processes as uninterpreted functions"""
    f = "erg cm-2 s-1"
    modular(sc, "agnpy.synchrotron:Synchrotron", "evaluate_sed_flux", f, "nu")
    modular(sc, "agnpy.compton:SynchrotronSelfCompton", "evaluate_sed_flux", f, "nu")
    modular(sc, "agnpy.compton:ExternalCompton", "evaluate_sed_flux_blr", f, "nu")
    modular(sc, "agnpy.compton:ExternalCompton", "evaluate_sed_flux_dt", f, "nu")
    modular(sc, "agnpy.targets:SSDisk", "evaluate_multi_T_bb_norm_sed", f, "nu")
    modular(sc, "agnpy.targets:RingDustTorus", "evaluate_bb_norm_sed", f, "nu")
