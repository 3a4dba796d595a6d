"""Value-flow analysis: the geometry functions are compared, in the normal form of the
value graph, with the distance and the direction between two points written in
cartesian coordinates, and the off-axis functions in the limit of a gamma ray on
the axis with the on-axis ones."""
from dists import *

MINIMUM = 84
RULE = "cartesian coordinates of the two points"
RULE2 = "limit on the axis"


def run(chk):
    for un in ("cm", "pc"):
        for shape in ((), ("N",), ("N", "M")):
            one(chk, un, shape)


def one(chk, un, shape):
    sc = Scenario(chk)
    G = "agnpy.utils.geometry:"
    tag = f"{un}, {len(shape)} axes"
    R, r, s = sc.q("R", "cm", ()), sc.q("r", un, shape), sc.q("u", "cm", shape)
    phi = sc.q("phi", None, shape, pos=False) if shape else sc.num("phi", pos=False)
    mu = sc.q("mu", None, shape, pos=False) if shape else sc.num("mu", pos=False)
    mu_s = sc.num("mu_s", pos=False)

    def same(name, got, want, rule=RULE):
        with Instance(chk, f"{name} ({tag})"):
            a, b = got(), want()
            if isinstance(a, tuple):
                for k, (x, y) in enumerate(zip(a, b)):
                    expect_equal(chk, sc, f"{name} ({tag}) {('azimuth', 'cosine')[k]}", rule, x, y, [sc.where(G + name.split()[0])])
            else:
                expect_equal(chk, sc, f"{name} ({tag})", rule, a, b, [sc.where(G + name.split()[0])])

    f = lambda n, *a: (lambda: tup(sc, sc.call(G + n, *a)))
    w = lambda n, *a: (lambda: tup(sc, sc.spec("geometry:" + n, *a)))
    same("cos_psi", f("cos_psi", mu_s, mu, phi), w("cos_psi", mu_s, mu, phi))
    same("cos_psi on axis", f("cos_psi", 1, mu, phi), lambda: mu, RULE2)
    same("x_re_shell", f("x_re_shell", mu, R, r), w("x_axis_shell", mu, R, r))
    same("mu_star_shell", f("mu_star_shell", mu, R, r), w("mu_axis_shell", mu, R, r))
    same("x_re_ring", f("x_re_ring", R, r), w("x_axis_ring", R, r))
    same("x_re_ring_mu_s", f("x_re_ring_mu_s", R, r, phi, s, mu_s), w("x_ring", R, r, phi, s, mu_s))
    same("phi_mu_re_ring", f("phi_mu_re_ring", R, r, phi, s, mu_s), w("angles_ring", R, r, phi, s, mu_s))
    same("x_re_shell_mu_s", f("x_re_shell_mu_s", R, r, phi, mu, s, mu_s), w("x_shell", R, r, phi, mu, s, mu_s))
    same("phi_mu_re_shell", f("phi_mu_re_shell", R, r, phi, mu, s, mu_s), w("angles_shell", R, r, phi, mu, s, mu_s))
    there = sc.op(r, "+", s)
    same("x_re_ring_mu_s on axis", f("x_re_ring_mu_s", R, r, phi, s, 1), f("x_re_ring", R, there), RULE2)
    same("x_re_shell_mu_s on axis", f("x_re_shell_mu_s", R, r, phi, mu, s, 1), w("x_axis_shell", mu, R, there), RULE2)
    same("phi_mu_re_shell on axis", lambda: f("phi_mu_re_shell", R, r, phi, mu, s, 1)()[1], w("mu_axis_shell", mu, R, there), RULE2)
    chk.absorb(sc)


def tup(sc, v):
    return v
