"""Value-flow analysis of the quadrature functions themselves: the log-log quadrature is
compared, interval by interval, with the integral of the power law through the two
points, for any axis and any number of axes, with and without units, and with the
inputs left untouched; the analytic integral of a power law and the reshaping of
axes with their definition."""
from dists import *

MINIMUM = 90
RULE = "integral of the power laws between the points"
RULE2 = "definition"


def run(chk):
    sc = Scenario(chk, loglog=False)
    L = "agnpy.utils.math:trapz_loglog"
    W = [sc.where(L)]
    for un in (None, "Hz"):
        Q = "quadrature:loglog" + ("" if un is None else "_units")
        k, p = sc.q("k", None if un is None else "erg cm-2"), sc.num("p", False)
        for shape in (("N",), ("N", "M"), ("M", "N"), ("K", "N", "M")):
            ax = shape.index("N")
            rest = tuple(d for d in shape if d != "N")
            last = lambda v: v.replace(dims=rest + ("N",)) if len(v.dims) > 1 else v
            for full in (False, True):
                y, x = sc.q("y", None if un is None else "erg cm-2", shape), sc.q("x", un, shape if full else ("N",))
                t = f"axis {ax} of {len(shape)}, {'units' if un else 'numbers'}, {'full' if full else 'one-dimensional'} abscissa"
                for a in [ax] + ([ax - len(shape)] if un else []):
                    i = t + (", from the end" if a < 0 else "")
                    with Instance(chk, i):
                        expect_equal(chk, sc, i, RULE, sc.call(L, y, x, axis=a), sc.spec(Q, last(y), last(x)), W)
                if full:
                    i = t + ": power law"
                    if un is None:
                        with Instance(chk, i):
                            f = sc.op(k, "*", sc.op(x, "**", p))
                            expect_equal(chk, sc, i, RULE, sc.call(L, f, x, axis=ax), sc.spec("quadrature:powers", k, p, last(x)), W)
                    i = t + ": inverse"
                    with Instance(chk, i):
                        f = sc.op(k, "/", x)
                        expect_equal(chk, sc, i, RULE, sc.call(L, f, x, axis=ax), sc.spec("quadrature:logarithm", k, last(x)), W)
                i = t + ": vanishing in places"
                with Instance(chk, i):
                    m = sc.q("w", None, shape, pos=False)
                    f = sc.spec("quadrature:cut", y, m)
                    g = sc.spec("quadrature:cut", last(y), last(m))
                    expect_equal(chk, sc, i, RULE, sc.call(L, f, x, axis=ax), sc.spec(Q, g, last(x)), W)
                    expect_equal(chk, sc, i + ", inputs unchanged", RULE2, f, sc.spec("quadrature:cut", y, m), W)
    P = "agnpy.utils.math:power_law_integral"
    k, p, lo, hi = sc.q("k", "cm-3"), sc.num("p", False), sc.num("lo"), sc.num("hi")
    for p in ("-1", "0", "1/2", "2", "5/2", "3"):
        i = f"power law integral, index {p}"
        with Instance(chk, i):
            expect_equal(chk, sc, i, RULE2, sc.call(P, k, number(p), lo, hi), sc.spec("quadrature:power_law", k, number(p), lo, hi), [sc.where(P)])
    with Instance(chk, "power law integral, index 1"):
        expect_equal(chk, sc, "power law integral, index 1", RULE2, sc.call(P, k, number(1), lo, hi), sc.spec("quadrature:log_law", k, lo, hi), [sc.where(P)])
    A = "agnpy.utils.math:axes_reshaper"
    names = ["A", "B", "C", "D", "F"]
    for n in range(1, 6):
        vs = [sc.q(a.lower(), un, (a,), pos=False) for a, un in zip(names[:n], (None, "cm", "Hz", None, "erg"))]
        i = f"reshaping of {n} arrays"
        with Instance(chk, i):
            got = list(sc.I.iterate(sc.call(A, *vs)))
            if len(got) != n:
                chk.violation(i, RULE2, [sc.where(A)], f"{len(got)} arrays")
                continue
            for j in range(n):
                expect_equal(chk, sc, f"{i}: {j}", RULE2, got[j], vs[j].replace(dims=(1,) * j + vs[j].dims + (1,) * (n - 1 - j)), [sc.where(A)])
    chk.absorb(sc)
