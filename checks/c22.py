"""Value-flow analysis: every derived quantity of the photon targets (Eddington
luminosity and ratio, accretion rate, gravitational radius, radii in its units,
temperature and photon energy profiles, angles subtended, line wavelength and
energy, torus temperature, sublimation radius) is compared in the normal form of
the value graph with its documented definition, for both ways of giving the disk
radii and for every line of the dictionary; wrong kinds of input raise."""
from dists import *

MINIMUM = 262
RULE = "documented definition"
RULE2 = "line dictionary"
# Finke 2016, Table 5: wavelength (Angstrom), radius and luminosity relative to Hbeta
LINES = """Lyepsilon 937.80 2.7 0.24;Lydelta 949.74 2.8 0.24;CIII 977.02 0.83 0.60;NIII 990.69 0.85 0.60;Lybeta 1025.72 1.2 1.1;OVI 1033.83 1.2 1.1;
ArI 1066.66 4.5 0.094;Lyalpha 1215.67 0.27 12;OI 1304.35 4.0 0.23;SiII 1306.82 4.0 0.23;SiIV 1396.76 0.83 1.0;OIV] 1402.06 0.83 1.0;CIV 1549.06 0.83 2.9;
NIV 1718.55 3.8 0.30;AlII 1721.89 3.8 0.30;CIII] 1908.73 0.46 1.8;[NeIV] 2423.83 5.8 0.051;MgII 2798.75 0.45 1.7;Hdelta 4102.89 3.4 0.12;Hgamma 4341.68 3.2 0.30;
HeII 4687.02 0.63 0.016;Hbeta 4862.68 1.0 1.0;[ClIII] 5539.43 4.8 0.039;HeI 5877.29 0.39 0.092;Halpha 6564.61 1.3 3.6"""
LINES = {f.split()[0]: tuple(f.split()[1:]) for f in LINES.replace("\n", "").split(";")}


def run(chk):
    from fractions import Fraction
    sc = Scenario(chk)
    E_ = lambda i, got, want, w, **k: expect_equal(chk, sc, i, RULE, got, want, w, **k)
    ang = u.Angstrom
    T = "agnpy.targets:"
    with Instance(chk, "lines"):
        d = sc.get(T + "lines_dictionary")
        B = sc.get(T + "SphericalShellBLR")
        for l, (lam, R, L) in LINES.items():
            with Instance(chk, f"line {l}"):
                e = sc.item(d, l)
                want = Num(al.mul2(al.lift(Fraction(lam)), unit_scale(ang)), ang, (), "f")
                expect_equal(chk, sc, f"line {l}: wavelength", RULE2, sc.item(e, "lambda"), want, [sc.where(B)])
                for k, v in (("R_Hbeta_ratio", R), ("L_Hbeta_ratio", L)):
                    expect_equal(chk, sc, f"line {l}: {k}", RULE2, sc.item(e, k), number(v), [sc.where(B)])
                o = sc.call(B, sc.q("L", "erg s-1"), sc.num("xi"), l, sc.q("R", "cm"))
                expect_equal(chk, sc, f"line {l}: wavelength of the shell", RULE2, sc.attr(o, "lambda_line"), want, [sc.where(B, "__init__")])
                expect_equal(chk, sc, f"line {l}: photon energy of the shell", RULE2, sc.attr(o, "epsilon_line"), sc.spec("targets:eps_line", want), [sc.where(B, "__init__")])
                for k, v in (("L_disk", sc.q("L", "erg s-1")), ("xi_line", sc.num("xi")), ("R_line", sc.q("R", "cm"))):
                    expect_equal(chk, sc, f"line {l}: {k}", RULE2, sc.attr(o, k), v, [sc.where(B, "__init__")])
        expect_raises(chk, sc, "unknown line", ("NameError",), lambda: sc.call(B, sc.q("L", "erg s-1"), sc.num("xi"), "no such line", sc.q("R", "cm")), [sc.where(B, "__init__")])
    with Instance(chk, "cmb, point source"):
        o = target(sc, "CMB")
        w = [sc.where(o, "__init__")]
        E_("CMB: photon energy", sc.attr(o, "epsilon_0"), sc.spec("targets:eps_cmb", sc.num("z_cmb")), w)
        E_("CMB: energy density", sc.attr(o, "u_0"), sc.spec("targets:u_cmb", sc.num("z_cmb")), w)
        o = target(sc, "PointSourceBehindJet")
        w = [sc.where(o, "__init__")]
        E_("point source: luminosity", sc.attr(o, "L_0"), sc.q("L_0", "erg s-1"), w)
        E_("point source: photon energy", sc.attr(o, "epsilon_0"), sc.num("epsilon_0"), w)
    with Instance(chk, "torus"):
        D = sc.get(T + "RingDustTorus")
        L, xi, Td = sc.q("L_disk", "erg s-1"), sc.num("xi_dt"), sc.q("T_dt", "K")
        w = [sc.where(D, "__init__")]
        for tag, kw, R in (("", {}, sc.spec("targets:R_sublimation", L, Td)), (" with a radius", dict(R_dt=sc.q("R_dt", "pc")), sc.q("R_dt", "pc"))):
            o = sc.call(D, L, xi, Td, **kw)
            E_(f"torus{tag}: radius", sc.attr(o, "R_dt"), R, w)
            th = sc.spec("targets:Theta", Td)
            E_(f"torus{tag}: dimensionless temperature", sc.attr(o, "Theta"), th, w)
            E_(f"torus{tag}: photon energy", sc.attr(o, "epsilon_dt"), sc.op(number("2.7"), "*", th), w)
            for k, v in (("L_disk", L), ("xi_dt", xi), ("T_dt", Td)):
                E_(f"torus{tag}: {k}", sc.attr(o, k), v, w)
    with Instance(chk, "disk"):
        D = sc.get(T + "SSDisk")
        w = [sc.where(D, "__init__")]
        M, L, eta = sc.q("M_BH", "M_sun"), sc.q("L_disk", "erg s-1"), sc.num("eta")
        Ri, Ro = sc.q("R_in", "pc"), sc.q("R_out", "cm")
        ti, to = sc.num("ri"), sc.num("ro")
        MUL = lambda a, b: sc.op(a, "*", b)
        Rg = sc.spec("targets:R_g", M)
        for tag, args, kw, RI, RO, TI, TO in (
                ("radii", (Ri, Ro), {}, Ri, Ro, sc.spec("targets:in_R_g", Ri, M), sc.spec("targets:in_R_g", Ro, M)),
                ("radii in units of R_g", (ti, to), dict(R_g_units=True), MUL(ti, Rg), MUL(to, Rg), ti, to)):
            with Instance(chk, "disk, " + tag):
                o = sc.call(D, M, L, eta, *args, **kw)
                a = lambda x: sc.attr(o, x)
                for k, v in (("M_BH", M), ("L_disk", L), ("eta", eta), ("M_8", sc.spec("targets:M8", M)), ("L_Edd", sc.spec("targets:L_Edd", M)),
                             ("m_dot", sc.spec("targets:m_dot", L, eta)), ("R_g", Rg), ("R_in", RI), ("R_out", RO), ("R_in_tilde", TI), ("R_out_tilde", TO),
                             ("l_Edd", sc.spec("processes:ratio", L, sc.spec("targets:L_Edd", M)))):
                    E_(f"disk, {tag}: {k}", a(k), v, w)
                E_(f"disk, {tag}: R_tilde", a("R_tilde"), sc.np("linspace", TI, TO), w)
                mu, rt, Rt, R = sc.arr("mu", "N"), sc.num("r_tilde"), sc.arr("Rt", "N"), sc.q("R", "cm", ("N",))
                E_(f"disk, {tag}: photon energy at a radius", sc.m(o, "epsilon", Rt), sc.spec("targets:disk_eps", L, M, eta, Rt), [sc.where(o, "epsilon")])
                E_(f"disk, {tag}: photon energy at an angle", sc.m(o, "epsilon_mu", mu, rt), sc.spec("targets:disk_eps", L, M, eta, sc.spec("targets:disk_R", mu, rt)), [sc.where(o, "epsilon_mu")])
                E_(f"disk, {tag}: flux profile at a radius", sc.m(o, "phi_disk", Rt), sc.spec("targets:disk_phi", TI, Rt), [sc.where(o, "phi_disk")])
                E_(f"disk, {tag}: flux profile at an angle", sc.m(o, "phi_disk_mu", mu, rt), sc.spec("targets:disk_phi", TI, sc.spec("targets:disk_R", mu, rt)), [sc.where(o, "phi_disk_mu")])
                E_(f"disk, {tag}: temperature", sc.m(o, "T", R), sc.spec("targets:disk_T", R, M, sc.spec("targets:m_dot", L, eta), RI), [sc.where(o, "T")])
                E_(f"disk, {tag}: angles", sc.call(sc.attr(D, "evaluate_mu_from_r_tilde"), TI, TO, rt, sc.num("size", dt="i")),
                   sc.spec("targets:disk_mu", TI, TO, rt, sc.num("size", dt="i")), [sc.where(D, "evaluate_mu_from_r_tilde")])
                E_(f"disk, {tag}: angles, default size", sc.call(sc.attr(D, "evaluate_mu_from_r_tilde"), TI, TO, rt),
                   sc.spec("targets:disk_mu", TI, TO, rt, 100), [sc.where(D, "evaluate_mu_from_r_tilde")])
        for tag, args, kw in (("numbers without the flag", (ti, to), {}), ("one number without the flag", (Ri, to), {}), ("lengths with the flag", (Ri, Ro), dict(R_g_units=True)),
                              ("one length with the flag", (ti, Ro), dict(R_g_units=True))):
            expect_raises(chk, sc, "disk radii: " + tag, ("TypeError",), lambda: sc.call(D, M, L, eta, *args, **kw), w)
    with Instance(chk, "conversion"):
        f = sc.get("agnpy.utils.conversion:to_R_g_units")
        E_("length in units of the gravitational radius", sc.call(f, Ri, M), sc.spec("targets:in_R_g", Ri, M), [sc.where(f)], check_unit=True)
    chk.absorb(sc)

