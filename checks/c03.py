"""Value-flow analysis: the graph of the self-absorption integrand of every
distribution is compared with gamma^2 d/dgamma (n / gamma^2), obtained by
differentiating, rule by rule, the graph of the *code's own* density; so the two
can only be changed together. Checked for arrays, two-dimensional and integer
Lorentz factors, through the instance and the static evaluation, and after the
parameters were updated."""
from dists import *

MINIMUM = 25




def run(chk):
    for n in ALL_DISTS:
        for kind in ("array", "2d", "integers", "scalar"):
            if n == "InterpolatedDistribution" and kind == "scalar":
                continue
            sc = Scenario(chk)
            name = f"{n} on {kind}"
            with Instance(chk, name):
                d = dist(sc, n)
                dims = {"array": ("G",), "2d": ("G", 1), "integers": ("G",), "scalar": ()}[kind]
                x = al.sym("g", True, ("G",) if dims else ())
                g = Num(x, None, dims, "i" if kind == "integers" else "f")
                where = [sc.where(d, "evaluate_SSA_integrand"), sc.where(d, "evaluate")]
                mk = sc.mark()
                dens = sc.call(d, g)
                want = reference(dens, x)
                got = sc.m(d, "SSA_integrand", g)
                expect_equal(chk, sc, name, "integrand = gamma^2 d(n/gamma^2)/dgamma", got, want, where)
                got = sc.call(sc.attr(d, "evaluate_SSA_integrand"), g, *sc.I.iterate(sc.attr(d, "parameters")))
                expect_equal(chk, sc, name + " (static)", "integrand = gamma^2 d(n/gamma^2)/dgamma", got, want, where)
                no_raises(chk, sc, name, mk)
                for p in (ANALYTIC.get(n) or ["norm", "gamma_min", "gamma_max"]):
                    new = sc.q("k_new", "cm-3") if p == "k" else sc.num(p + "_new", p not in SIGNED)
                    sc.set(d, p, new)
                want = reference(sc.call(d, g), x)
                expect_equal(chk, sc, name + " after an update", "integrand = gamma^2 d(n/gamma^2)/dgamma",
                             sc.m(d, "SSA_integrand", g), want, where)
            chk.absorb(sc)
    sc = Scenario(chk)
    with Instance(chk, "EmptyDistribution"):
        d = dist(sc, "EmptyDistribution")
        g = sc.arr("g", "G")
        expect_equal(chk, sc, "EmptyDistribution", "integrand = gamma^2 d(n/gamma^2)/dgamma", sc.m(d, "SSA_integrand", g),
                     Num(ZERO, u.Unit("cm-3"), ("G",)), [sc.where(d, "SSA_integrand")])
    chk.absorb(sc)


def reference(dens, x):
    n = dens.node
    e = al.mul(al.ipow(x, 2), al.diff(al.mul(n, al.ipow(x, -2)), x))
    return dens.replace(node=al.canon(e))
