"""Value-flow analysis: the energy loss rates of the electrons are compared, in the
normal form of the value graph, with the loss in the energy density of the field or
of the photons (4/3 sigma_T c U gamma^2, with the Klein-Nishina reduction where
documented), and the energy change functions of the time evolution with minus these
rates; after changes of the emission region too."""
from dists import *

MINIMUM = 84
RULE = "documented loss rate"
RULE2 = "sign and value of the energy change"


def run(chk):
    chk.parallel([lambda c, n=n: one(c, n) for n in ALL_DISTS])


def one(chk, nm):
    sc = Scenario(chk)
    g = sc.arr("gamma", "G")
    T = "agnpy.time_evolution:"
    for tag in ("", " after changes"):
        with Instance(chk, f"{nm}{tag}"):
            n = dist(sc, nm)
            b = blob(sc, n_e=n)
            s = sc.call("agnpy.synchrotron:Synchrotron", b)
            c = sc.call("agnpy.compton:SynchrotronSelfCompton", b)
            fs = {m: sc.call(T + m, o) for m, o in (("synchrotron_loss", s), ("ssc_loss", c), ("ssc_thomson_limit_loss", c))}
            if tag:
                for o, m in ((s, "electron_energy_loss_rate"), (c, "electron_energy_loss_rate"), (c, "electron_energy_loss_rate_thomson")):
                    sc.m(o, m, g)
                sc.set(b, "B", sc.q("B2", "mG"))
                sc.set(b, "R_b", sc.q("R_b2", "cm"))
                sc.set(b, "delta_D", sc.num("delta_D2"))
                n = dist(sc, nm, "_2")
                sc.set(b, "n_e", n)
            a = lambda x: sc.attr(b, x)
            want = {
                "synchrotron_loss": (s, "electron_energy_loss_rate", sc.spec("relations:loss", sc.spec("blob:U_B", a("B")), g)),
                "ssc_loss": (c, "electron_energy_loss_rate", sc.spec("processes:ssc_loss", g, a("z"), a("d_L"), a("delta_D"), a("B"), a("R_b"), n)),
                "ssc_thomson_limit_loss": (c, "electron_energy_loss_rate_thomson", sc.spec("relations:loss", a("u_ph_synch"), g)),
            }
            P = sc.get("agnpy.time_evolution.types:FnParams")
            par = sc.call(P, g, sc.arr("dens", "G", unit="cm-3"), None)
            for k, (o, m, w) in want.items():
                with Instance(chk, f"{nm}{tag}: {k}"):
                    expect_equal(chk, sc, f"{nm}{tag}: {o.cls.name}.{m}", RULE, sc.m(o, m, g), w, [sc.where(o, m)])
                    expect_equal(chk, sc, f"{nm}{tag}: {k}", RULE2, sc.call(fs[k], par), sc.op(number(0), "-", w) if w.unit is None else sc.op(number(-1), "*", w), [sc.where(T + k)])
            with Instance(chk, f"{nm}{tag}: acceleration"):
                t = sc.q("t_acc", "s")
                f = sc.call(T + "fermi_acceleration", t)
                expect_equal(chk, sc, f"{nm}{tag}: fermi_acceleration", RULE2, sc.call(f, par), sc.spec("relations:acceleration", g, t), [sc.where(T + "fermi_acceleration")])
    chk.absorb(sc)
