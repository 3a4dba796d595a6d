"""Value-flow analysis: for every distribution, the ordered parameter vector it
exposes, unpacked into its static density and self-absorption evaluations,
gives the graph of the instance itself (each parameter at its place), for every
parameter the vector holds the current attribute, and the static evaluations of
the processes receive that vector unchanged."""
from dists import *

MINIMUM = 40


def run(chk):
    for n in ALL_DISTS + ["EmptyDistribution"]:
        sc = Scenario(chk)
        with Instance(chk, n):
            d = dist(sc, n)
            g = sc.arr("g", "G")
            for tag in ("", " after updates"):
                if tag:
                    for p in ANALYTIC.get(n) or (["norm"] if n.startswith("Inter") else []) + ["gamma_min", "gamma_max"]:
                        sc.set(d, p, sc.q("k_new", "cm-3") if p == "k" else sc.num(p + "_new", p not in SIGNED))
                ps = list(sc.I.iterate(sc.attr(d, "parameters")))
                w = [sc.where(d, "parameters"), sc.where(d, "evaluate")]
                expect_equal(chk, sc, n + ": density" + tag, "parameter vector matches the evaluation", sc.call(sc.attr(d, "evaluate"), g, *ps), sc.call(d, g), w)
                expect_equal(chk, sc, n + ": integrand" + tag, "parameter vector matches the evaluation",
                             sc.call(sc.attr(d, "evaluate_SSA_integrand"), g, *ps), sc.m(d, "SSA_integrand", g), w)
                for i, p in enumerate(ps):
                    hits = [k for k, v in sc.I.hget(d.loc).items() if isinstance(v, Num) and isinstance(p, Num) and compare(v, p) is None]
                    if hits:
                        chk.ok(f"{n}: parameter {i}{tag}", "parameter vector holds the current attributes")
                    else:
                        chk.violate(f"{n}: parameter {i}{tag}", "parameter vector holds the current attributes", f"{p!r} is not an attribute", w)
                if n in ANALYTIC:
                    if len(ps) != len(ANALYTIC[n]):
                        chk.violate(f"{n}: number of parameters{tag}", "parameter vector matches the evaluation", f"{len(ps)} entries", w)
                    for nm in ANALYTIC[n]:
                        v = sc.attr(d, nm)
                        if any(compare(v, p) is None for p in ps):
                            chk.ok(f"{n}: {nm}{tag} in the vector", "parameter vector holds the current attributes")
                        else:
                            chk.violate(f"{n}: {nm}{tag} in the vector", "parameter vector holds the current attributes", "missing", w)
                    # keyword evaluation: names and places agree
                    kw = {nm: sc.attr(d, nm) for nm in ANALYTIC[n]}
                    expect_equal(chk, sc, n + ": density by keyword" + tag, "parameter vector matches the evaluation",
                                 sc.call(sc.attr(d, "evaluate"), g, **kw), sc.call(d, g), w)
        chk.absorb(sc)
