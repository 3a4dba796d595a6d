"""Value-flow analysis with object histories: each process object is built and
evaluated, then attributes of the object, of its emission region, of its particles
or of its photon target are changed, and the result of evaluating again is compared,
in the normal form of the value graph, with that of a fresh object built with the
final attributes. Evaluations are repeated and interleaved with those of other
objects, which must change nothing."""
from dists import *

MINIMUM = 247
RULE = "the current attributes decide"
RULE2 = "evaluating changes nothing"


def mk(sc, what, st):
    """object in the given state"""
    n = st["n_e"](sc)
    b = sc.call("agnpy.emission_regions:Blob", R_b=st["R_b"], z=st["z"], delta_D=st["delta_D"], Gamma=st["Gamma"], B=st["B"], n_e=n,
                n_p=dist(sc, "PowerLaw", "_p", mass=models.CONSTANTS["m_p"]), gamma_e_size=st["gamma_e_size"])
    kw = {} if st["integrator"] is None else dict(integrator=st["integrator"])
    t = None
    if what in ("Synchrotron", "SynchrotronSelfCompton"):
        o = sc.call(("agnpy.synchrotron:" if what == "Synchrotron" else "agnpy.compton:") + what, b, ssa=st["ssa"], **kw)
    elif what == "ProtonSynchrotron":
        o = sc.call("agnpy.synchrotron:ProtonSynchrotron", b, **kw)
    elif what.startswith("Absorption on "):
        tn = what.split()[-1]
        t = b if tn == "Blob" else mktarget(sc, tn, st)
        o = sc.call("agnpy.absorption:Absorption", t, r=st["r"], z=st["z_abs"], mu_s=st["mu_s"])
    else:
        t = mktarget(sc, what, st)
        o = sc.call("agnpy.compton:ExternalCompton", b, t, st["r"], **kw)
    return o, b, t


def mktarget(sc, name, st):
    T = "agnpy.targets:" + name
    if name == "CMB":
        return sc.call(T, sc.num("z_cmb"))
    if name == "PointSourceBehindJet":
        return sc.call(T, st["L"], st["epsilon_0"])
    if name == "SSDisk":
        return sc.call(T, sc.q("M_BH", "g"), st["L"], sc.num("eta"), sc.q("R_in", "cm"), sc.q("R_out", "cm"))
    if name == "SphericalShellBLR":
        return sc.call(T, st["L"], st["xi_t"], "Lyalpha", st["R_t"])
    return sc.call(T, st["L"], st["xi_t"], sc.q("T_dt", "K"), st["R_t"])


def state(sc):
    return dict(R_b=sc.q("R_b", "cm"), z=sc.num("z"), delta_D=sc.num("delta_D"), Gamma=sc.num("Gamma"), B=sc.q("B", "G"), n_e=lambda sc: dist(sc, "PowerLaw"),
                gamma_e_size=sc.num("size_e", dt="i"), ssa=False, integrator=None, r=sc.q("r", "cm"), L=sc.q("L", "erg s-1"), xi_t=sc.num("xi_t"), R_t=sc.q("R_t", "cm"),
                epsilon_0=sc.num("epsilon_0"), z_abs=sc.num("z_abs"), mu_s=number("1/2"))


ATTR = {"PointSourceBehindJet": {"L": "L_0", "epsilon_0": "epsilon_0"}, "SphericalShellBLR": {"L": "L_disk", "xi_t": "xi_line", "R_t": "R_line"},
        "RingDustTorus": {"L": "L_disk", "xi_t": "xi_dt", "R_t": "R_dt"}, "SSDisk": {}, "CMB": {}, "Blob": {}}
WHAT = ["Synchrotron", "ProtonSynchrotron", "SynchrotronSelfCompton"] + TARGETS + ["Absorption on " + t for t in ("PointSourceBehindJet", "SphericalShellBLR", "RingDustTorus", "SSDisk", "Blob")]


def changes(sc, what):
    """(name, change of the state, change of the live objects)"""
    ab = what.startswith("Absorption")
    tn = what.split()[-1]
    onblob = not ab or tn == "Blob"
    out = []
    if onblob:
        for a, v in (("R_b", sc.q("R_b2", "cm")), ("z", sc.num("z2")), ("delta_D", sc.num("delta_D2")), ("Gamma", sc.num("Gamma2")), ("B", sc.q("B2", "G")), ("gamma_e_size", sc.num("size2", dt="i"))):
            if a == "B" and not (tn in ("Synchrotron", "ProtonSynchrotron", "SynchrotronSelfCompton", "Blob")):
                continue
            if a == "Gamma" and tn not in TARGETS:
                continue
            if a == "gamma_e_size" and what == "ProtonSynchrotron":
                continue
            out.append((f"{a} of the region", {a: v}, lambda o, b, t, a=a, v=v: sc.set(b, a, v)))
        if what != "ProtonSynchrotron":
            k2, p2, g2 = sc.q("k2", "cm-3"), sc.num("p2", False), sc.num("gamma_max2")
            out.append(("another electron distribution", dict(n_e=lambda sc: dist(sc, "LogParabola", "_2")), lambda o, b, t: sc.set(b, "n_e", dist(sc, "LogParabola", "_2"))))
            for a, v in (("k", k2), ("p", p2), ("gamma_max", g2)):
                out.append((f"{a} of the electrons", dict(n_e=lambda sc, a=a, v=v: dist(sc, "PowerLaw", **{a: v})), lambda o, b, t, a=a, v=v: sc.set(b, "n_e." + a, v)))
    if not ab:
        integ = UserFunc("userIntegrator", "integrator")
        out.append(("quadrature", dict(integrator=integ), lambda o, b, t: sc.set(o, "integrator", integ)))
    if what in ("Synchrotron", "SynchrotronSelfCompton"):
        out.append(("self-absorption", dict(ssa=True), lambda o, b, t: sc.set(o, "ssa", True)))
    if tn in ATTR:
        if tn not in ("CMB", "Blob"):
            r2 = sc.q("r2", "cm")
            out.append(("distance", dict(r=r2), lambda o, b, t: sc.set(o, "r", r2)))
        if ab and tn != "Blob":
            z2 = sc.num("z_abs2")
            out.append(("redshift", dict(z_abs=z2), lambda o, b, t: sc.set(o, "z", z2)))
            if tn != "SSDisk":
                m2 = number("1/3")
                out.append(("direction", dict(mu_s=m2), lambda o, b, t: sc.set(o, "mu_s", m2)))
        for k, a in ATTR[tn].items():
            v = sc.q(k + "2", {"L": "erg s-1", "R_t": "cm"}.get(k)) if k in ("L", "R_t") else sc.num(k + "2")
            out.append((f"{a} of the target", {k: v}, lambda o, b, t, a=a, v=v: sc.set(t, a, v)))
    return out


def run(chk):
    chk.parallel([lambda c, w=w: one(c, w) for w in WHAT])


def one(chk, what):
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    ab = what.startswith("Absorption")
    out = "tau" if ab else "sed_flux"
    nu = sc.q("nu", "Hz", ("N",))
    st = state(sc)
    if what.endswith("SSDisk") and ab:
        st["mu_s"] = 1
    if what.endswith("Blob"):
        st["r"] = None
    with Instance(chk, what):
        ch = changes(sc, what)
        first = sc.m(mk(sc, what, st)[0], out, nu)
        for name, ds, do in ch:
            i = f"{what}: {name} changed"
            with Instance(chk, i):
                o, b, t = mk(sc, what, st)
                other = mk(sc, what, dict(st, **ds))
                sc.m(o, out, nu)
                sc.m(other[0], out, nu)
                expect_equal(chk, sc, f"{what}: repeated, before {name} is changed", RULE2, sc.m(o, out, nu), first, [sc.where(o, out)])
                do(o, b, t)
                got = sc.m(o, out, nu)
                want = sc.m(mk(sc, what, dict(st, **ds))[0], out, nu)
                expect_equal(chk, sc, i, RULE, got, want, [sc.where(o, out)])
                if getattr(got, "node", got) is getattr(first, "node", None) or getattr(got, "node", 0) == getattr(first, "node", 1):
                    chk.undecide(i, "the change has no effect on the analysed value")
        # all of them, one after the other
        i = f"{what}: all changed"
        with Instance(chk, i):
            o, b, t = mk(sc, what, st)
            final = dict(st)
            sc.m(o, out, nu)
            for name, ds, do in ch:
                if name.endswith("of the electrons") or name == "quadrature":
                    continue
                do(o, b, t)
                sc.m(o, out, nu)
                final.update(ds)
            expect_equal(chk, sc, i, RULE, sc.m(o, out, nu), sc.m(mk(sc, what, final)[0], out, nu), [sc.where(o, out)])
    chk.absorb(sc)
