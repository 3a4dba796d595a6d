"""Value-flow analysis: every derived quantity of the emission region, for a
symbolic region (with and without protons, with caller-chosen units, with each
shape of distribution), is compared with its documented definition
(specs/blob.py) in the normal form of the value graph; every comparison is
repeated after the base attributes were changed on the same object, and the
Doppler factor set from an angle is followed back to that angle."""
from dists import *

MINIMUM = 100
RULE = "derived quantity follows its definition from the current attributes"


def compare_all(chk, sc, tag, b, v):
    """v: dict with the current base attributes"""
    P = v["protons"]
    ne = v["n_e"]
    lo, hi = sc.attr(ne, "gamma_min"), sc.attr(ne, "gamma_max")
    ge = sc.spec("blob:grid", lo, hi, v["size_e"])
    S = lambda f, *a: sc.spec("blob:" + f, *a)
    m_e, m_p = models.CONSTANTS["m_e"], models.CONSTANTS["m_p"]
    R, z, D, G, B = v["R_b"], v["z"], v["delta_D"], v["Gamma"], v["B"]
    bin_ = lambda op, a, c: sc.I.binop(op, a, c)
    import ast
    V = S("V_b", R)
    want = {
        "V_b": V, "t_var": S("t_var", R, z, D), "Beta": S("Beta", G), "mu_s": S("mu_s", G, D), "theta_s": S("theta_s", G, D),
        "d_L": S("d_L", z, v["cosmology"]), "B_cgs": S("B_cgs", B), "U_B": S("U_B", B),
        "gamma_e": ge, "gamma_e_external_frame": S("grid_external", v["size_e"]),
        "n_e_tot": S("moment", ne, ge, 0), "N_e_tot": bin_(ast.Mult(), V, S("moment", ne, ge, 0)),
        "u_e": S("u_particles", ne, ge, m_e), "W_e": bin_(ast.Mult(), V, S("u_particles", ne, ge, m_e)),
        "u_ph_synch": S("u_ph_synch", B, R, ne, ge),
        "P_jet_B": S("P_jet", R, G, S("U_B", B)),
    }
    ue = want["u_e"]
    if P:
        npr = v["n_p"]
        gp = sc.spec("blob:grid", sc.attr(npr, "gamma_min"), sc.attr(npr, "gamma_max"), v["size_p"])
        up = S("u_particles", npr, gp, m_p)
        want.update({"gamma_p": gp, "n_p_tot": S("moment", npr, gp, 0), "N_p_tot": bin_(ast.Mult(), V, S("moment", npr, gp, 0)),
                     "u_p": up, "W_p": bin_(ast.Mult(), V, up)})
        tot = bin_(ast.Add(), ue, up)
    else:
        tot = ue
    want["k_eq"] = models.to_plain(bin_(ast.Div(), tot, want["U_B"]))
    want["P_jet_ke"] = S("P_jet", R, G, tot)
    for k, w in want.items():
        mk = sc.mark()
        with Instance(chk, f"{tag}: {k}"):
            expect_equal(chk, sc, f"{tag}: {k}", RULE, sc.attr(b, k), w, [sc.where(b, k)])
            no_raises(chk, sc, f"{tag}: {k}", mk)
    with Instance(chk, f"{tag}: N_e"):
        g = sc.arr("g", "G")
        expect_equal(chk, sc, f"{tag}: N_e", RULE, sc.m(b, "N_e", g), bin_(ast.Mult(), V, sc.call(ne, g)), [sc.where(b, "N_e")])
        if P:
            expect_equal(chk, sc, f"{tag}: N_p", RULE, sc.m(b, "N_p", g), bin_(ast.Mult(), V, sc.call(v["n_p"], g)), [sc.where(b, "N_p")])
    with Instance(chk, f"{tag}: photon density"):
        e = sc.arr("eps", "E")
        s = sc.arr("sed", "E", unit="erg cm-2 s-1")
        w = S("u_ph_synch_diff", R, S("d_L", z, v["cosmology"]), D, e, s)
        expect_equal(chk, sc, f"{tag}: differential photon density", RULE, sc.m(b, "u_ph_synch_diff", e, s), w, [sc.where(b, "u_ph_synch_diff")])


def run(chk):
    m_p = models.CONSTANTS["m_p"]
    for nm, pn in [(x, None) for x in ALL_DISTS] + [("PowerLaw", "PowerLaw"), ("BrokenPowerLaw", "ExpCutoffPowerLaw")]:
        sc = Scenario(chk)
        tag = nm + (f" with {pn} protons" if pn else "")
        with Instance(chk, tag):
            ne = dist(sc, nm)
            npr = dist(sc, pn, "_p", mass=m_p) if pn else None
            v = dict(R_b=sc.q("R_b", userunit("myLength", u.cm) if pn else "cm"), z=sc.num("z"), delta_D=sc.num("delta_D"), Gamma=sc.num("Gamma"),
                     B=sc.q("B", "G"), n_e=ne, n_p=npr, protons=bool(pn), cosmology=None,
                     size_e=sc.num("size_e", dt="i"), size_p=sc.num("size_p", dt="i"))
            kw = {k: v[k] for k in ("R_b", "z", "delta_D", "Gamma", "B", "n_e")}
            if pn:
                kw["n_p"] = npr
            b = sc.call("agnpy.emission_regions:Blob", gamma_e_size=v["size_e"], gamma_p_size=v["size_p"], **kw)
            if pn:
                v["cosmology"] = None
            compare_all(chk, sc, tag, b, v)
            # every base attribute changed on the same object
            new = dict(R_b=sc.q("R_b2", "cm"), z=sc.num("z2"), delta_D=sc.num("delta_D2"), Gamma=sc.num("Gamma2"), B=sc.q("B2", "mG"),
                       n_e=dist(sc, "LogParabola", "_2"), size_e=sc.num("size_e2", dt="i"))
            if pn:
                new["n_p"] = dist(sc, "LogParabola", "_3", mass=m_p)
                new["size_p"] = sc.num("size_p2", dt="i")
            at = dict(size_e="gamma_e_size", size_p="gamma_p_size")
            for k, x in new.items():
                sc.set(b, at.get(k, k), x)
                v[k] = x
                if nm == "PowerLaw":
                    compare_all(chk, sc, f"{tag}, after changing {k}", b, v)
            if nm != "PowerLaw":
                compare_all(chk, sc, f"{tag}, after changing everything", b, v)
            # parameters of the distribution changed in place
            sc.set(b, "n_e.gamma_max", sc.num("gmax_new"))
            sc.set(b, "n_e.k", sc.q("k_new", "cm-3"))
            compare_all(chk, sc, f"{tag}, after changing the distribution", b, v)
        chk.absorb(sc)
    angle(chk)
    cosmology(chk)
    guards(chk)
    conversions(chk)


def angle(chk):
    sc = Scenario(chk)
    with Instance(chk, "set_delta_D"):
        b = blob(sc)
        th = sc.q("theta", "rad")
        G = sc.num("Gamma_new")
        sc.m(b, "set_delta_D", G, th)
        w = [sc.where(b, "set_delta_D")]
        cos = models.fresh(sc.I.call(Ext("numpy.cos"), [th], {}))
        expect_equal(chk, sc, "set_delta_D: Gamma", "attributes of the requested outflow", sc.attr(b, "Gamma"), G, w)
        expect_equal(chk, sc, "set_delta_D: delta_D", "attributes of the requested outflow", sc.attr(b, "delta_D"), sc.spec("blob:doppler", G, th), w)
        expect_equal(chk, sc, "set_delta_D: mu_s", "the viewing angle is the one requested", sc.attr(b, "mu_s"), cos, w, check_unit=False)
        b = blob(sc)
        th = sc.q("theta", "deg")
        sc.m(b, "set_delta_D", theta_s=th, Gamma=G)
        expect_equal(chk, sc, "set_delta_D (degrees)", "attributes of the requested outflow", sc.attr(b, "delta_D"), sc.spec("blob:doppler", G, th), w)
    chk.absorb(sc)


def cosmology(chk):
    sc = Scenario(chk)
    with Instance(chk, "cosmology"):
        cosmo = ExtObj("cosmology", name="userCosmology")
        b = blob(sc, cosmology=cosmo)
        w = [sc.where(b, "__init__"), sc.where(b, "d_L")]
        expect_equal(chk, sc, "luminosity distance for the cosmology given", RULE, sc.attr(b, "d_L"), sc.spec("blob:d_L", sc.num("z"), cosmo), w)
        sc.set(b, "z", sc.num("z2"))
        expect_equal(chk, sc, "luminosity distance for the cosmology given, after changing z", RULE, sc.attr(b, "d_L"), sc.spec("blob:d_L", sc.num("z2"), cosmo), w)
    chk.absorb(sc)


def guards(chk):
    """missing protons are reported, not replaced by anything"""
    sc = Scenario(chk)
    with Instance(chk, "no protons"):
        b = blob(sc)
        for k in ("n_p", "gamma_p", "n_p_tot", "N_p_tot", "u_p", "W_p"):
            try:
                r = sc.attr(b, k)
                chk.violate(f"{k} without protons", "AttributeError without a proton distribution", f"returns {r!r}", [sc.where(b, k)])
            except AbsRaise as x:
                if x.exc.name != "AttributeError":
                    chk.violate(f"{k} without protons", "AttributeError without a proton distribution", f"raises {x.exc!r}", [x.src, sc.where(b, k)])
                else:
                    chk.ok(f"{k} without protons", "AttributeError without a proton distribution")
    with Instance(chk, "Doppler factor guard"):
        mk = sc.mark()
        d = sc.num("any_delta", pos=False)
        blob(sc, delta_D=d)
        rs = sc.I.raises[mk[0]:]
        cond = ZERO
        for pc, exc, st, src in rs:
            if exc.name != "ValueError":
                chk.violate("Doppler factor guard", "ValueError exactly for a Doppler factor <= 0", f"raises {exc!r}", [src])
                return
            cond = al.add(cond, al.mul(*pc))
        want = al.ge0(al.mul2(al.MINUS1, d.node))
        if al.equal(al.canon(cond), want):
            chk.ok("Doppler factor guard", "ValueError exactly for a Doppler factor <= 0")
        else:
            chk.violate("Doppler factor guard", "ValueError exactly for a Doppler factor <= 0", f"raised when {al.show(cond)}", [sc.where(sc.get("agnpy.emission_regions:Blob"), "__init__")])
        for bad in ("10", None):
            try:
                blob(sc, delta_D=bad)
                chk.violate(f"Doppler factor {bad!r}", "ValueError exactly for a Doppler factor <= 0", "accepted", [sc.where(sc.get("agnpy.emission_regions:Blob"), "__init__")])
            except AbsRaise as x:
                if x.exc.name == "ValueError":
                    chk.ok(f"Doppler factor {bad!r}", "ValueError exactly for a Doppler factor <= 0")
                else:
                    chk.violate(f"Doppler factor {bad!r}", "ValueError exactly for a Doppler factor <= 0", f"raises {x.exc!r}", [x.src])
    chk.absorb(sc)


def conversions(chk):
    sc = Scenario(chk)
    with Instance(chk, "frequency conversion"):
        f = sc.get("agnpy.utils.conversion:nu_to_epsilon_prime")
        nu = sc.q("nu", userunit("myHz", u.Hz), ("N",))
        z, D = sc.num("z"), sc.num("delta_D")
        for nm in ("m_e", "m_p"):
            m = models.CONSTANTS[nm]
            got = sc.call(f, nu, z, D, m=m)
            expect_equal(chk, sc, "photon energy for " + nm, "h nu (1+z) / (delta_D m c^2)", got, sc.spec("blob:nu_to_epsilon", nu, z, D, m), [sc.where(f)])
        got = sc.call(f, nu, z)
        expect_equal(chk, sc, "photon energy in the external frame", "h nu (1+z) / (delta_D m c^2)", got, sc.spec("blob:nu_to_epsilon", nu, z, 1, models.CONSTANTS["m_e"]), [sc.where(f)])
    chk.absorb(sc)
