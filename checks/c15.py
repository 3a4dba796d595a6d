"""Value-flow analysis of the unit conversions of the package."""
from dists import *

MINIMUM = 125
R = "documented conversion"
RI = "conversion back gives the value converted"
M = "agnpy.utils.conversion:"


def run(chk):
    sc = Scenario(chk)
    C = models.CONSTANTS
    c, h, G = C["c"], C["h"], C["G"]
    op = sc.op
    for nm in ("m_e", "m_p"):
        m = C[nm]
        w = [sc.where(M + "epsilon_equivalency"), sc.where(M + "nu_to_epsilon_prime")]
        E0 = op(m, "*", op(c, "**", 2))
        for un in ("Hz", "GHz", "1 / min"):
            for dims in ((), ("N",)):
                i = f"{nm}, {un}, {'array' if dims else 'scalar'}"
                nu, e = sc.q("nu", un, dims), sc.q("eps", "", dims)
                with Instance(chk, f"energy of a frequency in rest-mass units: {i}"):
                    eq = sc.call(M + "epsilon_equivalency", m)
                    got = sc.m(nu, "to", "", equivalencies=eq)
                    expect_equal(chk, sc, f"energy of a frequency in rest-mass units: {i}", R, got, sc.m(op(op(h, "*", nu), "/", E0), "to", ""), w)
                    back = sc.m(got, "to", U(un), equivalencies=eq)
                    expect_equal(chk, sc, f"back to the frequency: {i}", RI, back, nu, w)
                    f = sc.m(e, "to", U(un), equivalencies=eq)
                    expect_equal(chk, sc, f"frequency of an energy: {i}", R, f, op(op(e, "*", E0), "/", h), w)
                    expect_equal(chk, sc, f"energy of that frequency: {i}", RI, sc.m(f, "to", "", equivalencies=eq), e, w)
                with Instance(chk, f"energy in a moving frame: {i}"):
                    z, D = sc.num("z"), sc.num("delta_D")
                    got = sc.call(M + "nu_to_epsilon_prime", nu, z, D, m=m)
                    want = op(op(op(op(h, "*", nu), "/", E0), "*", op(1, "+", z)), "/", D)
                    expect_equal(chk, sc, f"energy in a moving frame: {i}", R, got, sc.m(want, "to", ""), w)
                    got = sc.call(M + "nu_to_epsilon_prime", nu, z, m=m)
                    expect_equal(chk, sc, f"energy in the frame of the galaxy: {i}", R, got, sc.m(op(want, "*", D), "to", ""), w)
                    got = sc.call(M + "nu_to_epsilon_prime", nu, m=m)
                    expect_equal(chk, sc, f"energy in the observer's frame: {i}", R, got, sc.m(op(op(h, "*", nu), "/", E0), "to", ""), w)
        with Instance(chk, f"rest-mass energy {nm}"):
            expect_equal(chk, sc, f"rest-mass energy {nm}", R, sc.ns("agnpy.utils.conversion")["mec2" if nm == "m_e" else "mpc2"], E0, [])
            expect_equal(chk, sc, f"Compton wavelength {nm}", R, sc.ns("agnpy.utils.conversion")["lambda_c_e" if nm == "m_e" else "lambda_c_p"], op(h, "/", op(m, "*", c)), [])
    with Instance(chk, "default mass"):
        nu = sc.q("nu", "Hz", ("N",))
        expect_equal(chk, sc, "the electron is the default particle", R, sc.call(M + "nu_to_epsilon_prime", nu), sc.call(M + "nu_to_epsilon_prime", nu, m=C["m_e"]), [sc.where(M + "nu_to_epsilon_prime")])
    w = [sc.where(M + "B_to_cgs")]
    for un in ("G", "mG", "T", "uT"):
        for dims in ((), ("N",)):
            i = f"magnetic field in {un}, {'array' if dims else 'scalar'}"
            with Instance(chk, i):
                B = sc.q("B", un, dims)
                got = sc.call(M + "B_to_cgs", B)
                gauss = sc.m(B, "to_value", "G")
                cgs = U("cm(-1/2) g(1/2) s-1")
                expect_equal(chk, sc, i, R, got, op(gauss, "*", cgs), w)
                expect_equal(chk, sc, i + ": number", R, sc.attr(got, "value"), gauss, w)
                back = sc.m(got, "to", U(un), equivalencies=sc.ns("agnpy.utils.conversion")["Gauss_cgs_equivalency"])
                expect_equal(chk, sc, i + ": back", RI, back, B, w)
    w = [sc.where(M + "to_R_g_units")]
    for ur, um in (("cm", "g"), ("pc", "kg"), ("km", "M_sun")):
        for dims in ((), ("N",)):
            i = f"distance in gravitational radii, {ur}, {um}, {'array' if dims else 'scalar'}"
            with Instance(chk, i):
                r, mm = sc.q("r", ur, dims), sc.q("M", um)
                got = sc.call(M + "to_R_g_units", r, mm)
                Rg = op(op(G, "*", mm), "/", op(c, "**", 2))
                expect_equal(chk, sc, i, R, got, sc.m(op(r, "/", Rg), "to", ""), w)
                expect_equal(chk, sc, i + ": back", RI, op(got, "*", Rg), r, w)
    chk.absorb(sc)
