"""Value-flow analysis: the attenuation of the emission (emitted behind, or mixed
with, the absorbing photons) is compared in the normal form of the value graph
with its definition from the optical depth of the same object, for every target,
position and direction, including the limit without absorption; the EBL attenuation
with the linear interpolation of the table of the model requested at the photon
energy and redshift given; unusable requests raise."""
from dists import *

MINIMUM = 42
RULE = "attenuation of the optical depth"
RULE2 = "interpolation of the table of the model"
FILES = {"franceschini_2008": "ebl_franceschini.fits.gz", "franceschini_2017": "ebl_franceschini_2017.fits.gz",
         "dominguez_2011": "ebl_dominguez11.fits.gz", "finke_2010": "frd_abs.fits.gz", "saldana_lopez_2021": "ebl_saldana-lopez_2021.fits.gz"}


def run(chk):
    jobs = [lambda c, t=t, off=off: one(c, t, off) for t in ("SSDisk", "PointSourceBehindJet", "SphericalShellBLR", "RingDustTorus") for off in (False, True)
            if not (t == "SSDisk" and off)]
    chk.parallel(jobs + [synch, ebl])


def both(chk, sc, i, a, nu):
    tau = sc.m(a, "tau", nu)
    for m, s in (("absorption", "along_path"), ("absorption_homogeneous", "homogeneous")):
        with Instance(chk, f"{i}: {m}"):
            mk = sc.mark()
            expect_equal(chk, sc, f"{i}: {m}", RULE, sc.m(a, m, nu), sc.spec("absorption:" + s, tau), [sc.where(a, m)])
            no_raises(chk, sc, f"{i}: {m}", mk)


def one(chk, t, off):
    sc = Scenario(chk)
    sc.I.opaque_shifts = True
    A = sc.get("agnpy.absorption:Absorption")
    i = f"{t}, {'any direction' if off else 'along the jet'}"
    with Instance(chk, i):
        tg = target(sc, t)
        kw = dict(mu_s=number("1/2")) if off else {}
        a = sc.call(A, tg, r=sc.q("r", "cm"), z=sc.num("z"), **kw)
        both(chk, sc, i, a, sc.q("nu", userunit("myHz", u.Hz), ("N",)))
        if not off:
            expect_raises(chk, sc, f"{t}: no distance", ("ValueError",), lambda: sc.call(A, tg), [sc.where(A, "__init__")])
            expect_raises(chk, sc, f"{t}: no distance, redshift", ("ValueError",), lambda: sc.call(A, tg, z=sc.num("z")), [sc.where(A, "__init__")])
    chk.absorb(sc)


def synch(chk):
    sc = Scenario(chk)
    with Instance(chk, "synchrotron photons of a region"):
        b = blob(sc)
        a = sc.call("agnpy.absorption:Absorption", b)
        both(chk, sc, "synchrotron photons of a region", a, sc.q("nu_abs", "Hz", ("N",)))
    chk.absorb(sc)


def ebl(chk):
    sc = Scenario(chk)
    sc.I.table_axes = {("SPECTRA", "INTPSPEC"): ("ENERGIES",)}
    C = sc.get("agnpy.absorption:EBL")
    nu, z = sc.q("nu", userunit("myHz", u.Hz), ("N",)), sc.num("z")
    files = sc.get("agnpy.absorption.ebl_absorption:ebl_files_dict")
    for m, f in FILES.items():
        with Instance(chk, f"EBL {m}"):
            path = sc.item(files, m)
            if isinstance(path, models.PathV):
                path = path.s
            if isinstance(path, str) and path.endswith("/data/ebl_models/" + f):
                chk.ok(f"EBL {m}: file", RULE2)
            else:
                chk.violate(f"EBL {m}: file", RULE2, f"{path!r} instead of data/ebl_models/{f}", [sc.where(C)])
                continue
            mk = sc.mark()
            for tag, o in [("", sc.call(C, m))] + ([(", by default", sc.call(C))] if m == "dominguez_2011" else []):
                for t2, E in (("frequencies", nu), ("energies", sc.q("E", "GeV", ("N",)))):
                    fr = E if t2 == "frequencies" else sc.op(E, "/", models.CONSTANTS["h"])
                    expect_equal(chk, sc, f"EBL {m}{tag}, {t2}", RULE2, sc.m(o, "absorption", E, z),
                                 sc.spec("absorption:ebl", path, 1001 if m == "franceschini_2008" else None, fr, z), [sc.where(o, "absorption"), sc.where(o, "load_absorption_table")])
            no_raises(chk, sc, f"EBL {m}", mk)
    expect_raises(chk, sc, "EBL: unknown model", ("ValueError",), lambda: sc.call(C, "no such model"), [sc.where(C, "__init__")])
    chk.absorb(sc)
