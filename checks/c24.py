"""Value-flow analysis of the fit wrappers: the value of a fit model, as a function of the
current values of its parameters, must be congruent to the sum of the emission processes
of the package at the physical values the parameters stand for."""
from fitmodels import *

MINIMUM = 228
RULE = "model equals the sum of the package's processes at the parameter values"


def run(chk):
    chk.parallel([(lambda c, d=d, s=s: one(c, d, s)) for d in ALL_DISTS for s in SCEN] + [shapes])


def one(chk, d, scen):
    sc = fitscenario(chk)
    processes(sc)
    n_e = dist(sc, d)
    for ssa in (False, True):
        for backend in ("gammapy", "sherpa"):
            i = f"{backend} {scen} model, {d}, ssa={ssa}"
            w = where(sc, scen, backend)

            def values():
                m = model(sc, scen, n_e, ssa, backend)
                x = sc.arr("E", "N")
                E_ = sc.op(sc.arr("E", "N"), "*", U("eV"))
                sed(sc, m, backend, E_, x)
                P, args = fresh(sc, m, d, scen, backend, "new_")
                got = sed(sc, m, backend, sc.op(sc.arr("E", "N"), "*", U("eV")), sc.arr("E", "N"))
                norm = P.pop("norm", None)
                targets = SCEN[scen]
                want = sc.spec("fit:total", E_, n_e, sc.I.new_list(args), ssa, None if targets is None else sc.I.new_list(list(targets)), sc.I.new_dict(P))
                return got, want if norm is None else sc.op(norm, "*", want)

            with Instance(chk, i):
                # the processes as uninterpreted functions of their arguments first
                try:
                    sc.modular = True
                    if compare(*values()) is None:
                        chk.ok(i, RULE)
                        continue
                except (AbsRaise, Unsupported):
                    pass
                finally:
                    sc.modular = False
                if chk.enough():
                    chk.undecide(i, "not congruent process by process, and not expanded (violation found elsewhere, or time)")
                    continue
                expect_equal(chk, sc, i, RULE, *values(), w)
        if not ssa:
            for backend in ("gammapy", "sherpa"):
                i = f"{backend} {scen} model, {d}: evaluated without an exception"
                with Instance(chk, i):
                    sc.modular = False
                    mk = sc.mark()
                    m = model(sc, scen, n_e, ssa, backend)
                    fresh(sc, m, d, scen, backend, "new_")
                    sed(sc, m, backend, sc.op(sc.arr("E", "N"), "*", U("eV")), sc.arr("E", "N"))
                    if no_raises(chk, sc, i, mk):
                        chk.ok(i, "no exception for valid parameters")
    chk.absorb(sc)


def shapes(chk):
    """gammapy hands over the energies with additional axes and in any unit"""
    sc = fitscenario(chk)
    for d in ("PowerLaw", "InterpolatedDistribution"):
        n_e = dist(sc, d)
        for scen in ("ssc", "ec blr dt"):
            for un in ("eV", "TeV", "keV"):
                for dims in (("N",), ("N", 1, 1)):
                    i = f"gammapy {scen} model, {d}, energies in {un} of shape {dims}"
                    with Instance(chk, i):
                        m = model(sc, scen, n_e, False, "gammapy")
                        E_ = sc.q("E", un, ("N",))
                        flat = sc.I.call(m, [E_], {})
                        if dims != ("N",):
                            E_ = sc.np("reshape", E_, (sc.attr(E_, "size"), 1, 1))
                        got = sc.I.call(m, [E_], {})
                        P, args = {}, []
                        ref = sc.I.call(m, [sc.m(sc.q("E", un, ("N",)), "to", U("eV"))], {})
                        expect_equal(chk, sc, i, "independent of the unit and shape of the energies", sc.m(got, "flatten"), ref, where(sc, scen, "gammapy"))
                        if len(got.dims) != len(dims):
                            chk.violate(i + " (shape)", "shape of the energies", f"shape {got.dims}", where(sc, scen, "gammapy"))
                        else:
                            chk.ok(i + " (shape)", "shape of the energies")
    chk.absorb(sc)
