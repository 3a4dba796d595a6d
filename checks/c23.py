"""Value-flow analysis: each characteristic Lorentz factor is substituted back in
the documented time scales (specs/constraints.py) and the two sides it must
balance are compared in the normal form of the value graph, for the region's
current attributes (also after they change) and any torus and distance."""
from dists import *

MINIMUM = 120
RULE = "balance of the documented time scales"


def run(chk):
    sc = Scenario(chk)
    for nm in ALL_DISTS:
        with Instance(chk, nm):
            n = dist(sc, nm)
            b = blob(sc, n_e=n, gamma_e_size=sc.num("size_e", dt="i"), xi=sc.num("xi"))
            c = sc.call("agnpy.constraints:SpectralConstraints", b)
            for tag in ("", ", after changes"):
                if tag:
                    sc.set(b, "B", sc.q("B2", "mT"))
                    sc.set(b, "R_b", sc.q("R2", "pc"))
                    sc.set(b, "xi", sc.num("xi2"))
                    sc.set(b, "Gamma", sc.num("Gamma2"))
                    sc.set(b, "n_e", dist(sc, nm, "2"))
                one(chk, sc, nm + tag, b, c)
    chk.absorb(sc)


def one(chk, sc, tag, b, c):
    s = lambda f, *a: sc.spec("constraints:" + f, *a)
    a = lambda x: sc.attr(b, x)
    B, R, xi = a("B"), a("R_b"), a("xi")
    U_s = sc.spec("blob:u_ph_synch", B, R, a("n_e"), a("gamma_e"))
    dt = target(sc, "RingDustTorus")
    cases = []
    for r in (sc.q("r", "pc"), None):
        rr = r if r is not None else Num(al.ZERO, u.cm, (), "f")
        U_e = sc.spec("targets:u_dt", *[sc.attr(dt, x) for x in ("L_disk", "xi_dt", "R_dt")], rr, a("Gamma"))
        t2 = "" if r is not None else ", default distance"
        kw = {} if r is None else dict(r=r)
        cases += [("gamma_max_EC_DT", kw, t2, lambda g, U=U_e: (s("T_acc", g, B, xi), s("T_loss", g, U))),
                  ("gamma_break_EC_DT", kw, t2, lambda g, U=U_e: (s("T_loss", g, U), s("T_bal", R)))]
    cases += [("gamma_max_larmor", None, "", lambda g: (s("R_L", g, B), R)),
              ("gamma_max_ballistic", None, "", lambda g: (s("T_acc", g, B, xi), s("T_bal", R))),
              ("gamma_max_synch", None, "", lambda g: (s("T_acc", g, B, xi), s("T_loss", g, s("U_B", B)))),
              ("gamma_max_SSC", None, "", lambda g: (s("T_acc", g, B, xi), s("T_loss", g, U_s))),
              ("gamma_break_synch", None, "", lambda g: (s("T_loss", g, s("U_B", B)), s("T_bal", R))),
              ("gamma_break_SSC", None, "", lambda g: (s("T_loss", g, U_s), s("T_bal", R)))]
    for m, kw, t2, sides in cases:
        i = f"{tag}: {m}{t2}"
        with Instance(chk, i):
            mk = sc.mark()
            g = sc.attr(c, m) if kw is None else sc.m(c, m, dt, **kw)
            n = num_of(g)
            if n is None or n.unit is not None:
                chk.violate(i, RULE, "a Lorentz factor is a plain number", [sc.where(c, m)])
                continue
            l, r = sides(g)
            expect_equal(chk, sc, i, RULE, sc.op(l, "*", g), sc.op(r, "*", g), [sc.where(c, m)])
            no_raises(chk, sc, i, mk)
