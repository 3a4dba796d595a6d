"""Value-flow analysis: the energy density of each photon target, in the frame of
the galaxy and in the frame of an emission region, is compared in the normal form
of the value graph with the documented density and the relativistic transformation
of photons arriving from the target's directions (specs/targets.py); the region's
current motion is the one used."""
from dists import *

MINIMUM = 56
RULE = "documented energy density"
RULE2 = "transformation to the frame of the region"
SPEC = {"CMB": ("u_cmb", []), "PointSourceBehindJet": ("u_ps", ["L_0"]), "SSDisk": ("u_disk", ["M_BH", "L_disk", "eta", "R_in", "R_out"]),
        "SphericalShellBLR": ("u_blr", ["L_disk", "xi_line", "R_line"]), "RingDustTorus": ("u_dt", ["L_disk", "xi_dt", "R_dt"])}


def run(chk):
    chk.parallel([lambda c, t=t: one(c, t) for t in TARGETS])


def one(chk, t):
    sc = Scenario(chk)
    f, pars = SPEC[t]
    with Instance(chk, t):
        tg = target(sc, t)
        p = [sc.attr(tg, x) for x in pars] if t != "CMB" else [sc.num("z_cmb")]
        rs = {"": []} if t == "CMB" else {", array of distances": [sc.q("r", "cm", ("N",))], ", distances in other units": [sc.q("r", "pc", ("N",))]}
        if t in ("PointSourceBehindJet", "RingDustTorus", "SSDisk"):
            rs[", one distance"] = [sc.q("r", "cm")]
        w = [sc.where(tg, "u")]
        b = blob(sc)
        for tag, r in rs.items():
            with Instance(chk, f"{t}: at rest{tag}"):
                mk = sc.mark()
                expect_equal(chk, sc, f"{t}: at rest{tag}", RULE, sc.m(tg, "u", *r), sc.spec("targets:" + f, *p, *r), w)
                no_raises(chk, sc, f"{t}: at rest{tag}", mk)
            for hist in ("", ", after the region changed its motion"):
                i = f"{t}: comoving{tag}{hist}"
                with Instance(chk, i):
                    if hist:
                        sc.set(b, "Gamma", sc.num("Gamma_new"))
                    G_ = sc.attr(b, "Gamma")
                    got = sc.m(tg, "u", *r, blob=b)
                    want = sc.spec("targets:" + f, *p, *r, G_)
                    if t == "SphericalShellBLR" and compare(got, want) is not None and compare(got, sc.spec("targets:" + f, *p, *r, G_, False)) is None:
                        chk.violate("SphericalShellBLR: photons of the shell ahead of the region are boosted as if they came from behind", RULE2,
                                    "the cosine of the photon direction has lost its sign: inside the shell (r < mu R_line) it must be negative", w)
                        continue
                    expect_equal(chk, sc, i, RULE2, got, want, w)
                    expect_equal(chk, sc, i + ", positional", RULE2, sc.m(tg, "u", *r, b), want, w) if t != "SphericalShellBLR" else None
    chk.absorb(sc)
