"""Value-flow analysis of the guards of the time evolution: arguments which
contradict each other and states which cannot exist end with an exception,
everything at the edge of the documented domain is accepted."""
from evol import *

MINIMUM = 80
RULE = "invalid input raises"
INIT = ("__init__", "evaluate")


class Given(Evolution):
    """user functions with given values"""
    values = {}

    def value(self, name, g, state, d, s, unit):
        f = self.values.get(name)
        return super().value(name, g, state, d, s, unit) if f is None else f(g, d)


def region(chk, **kw):
    kw = {"decide": None, "rel": (), "abs_": (), "state": False, **kw}
    return Given(chk, **kw)


def points(sc, *fs):
    """Lorentz factors in given ratios to an unknown one"""
    x = sc.num("x")
    return sc.np("array", sc.I.new_list([sc.op(x, "*", number(str(f))) for f in fs])), x


def args(chk, tag, ok, f, names=("ValueError",), **kw):
    with Instance(chk, tag):
        ev = region(chk, **kw)
        sc = ev.sc
        where = [sc.where(TE + "TimeEvolution", "__init__")]
        call = lambda: ev.build(**f(sc))
        if ok:
            try:
                call()
                chk.ok(tag, "valid input is accepted")
            except AbsRaise as x:
                chk.violate(tag, "valid input is accepted", f"raises {x.exc!r}", where + [x.src])
        else:
            expect_raises(chk, sc, tag, names, call, where)
        chk.absorb(sc)


def arguments(chk):
    q = lambda sc: sc.q("dt", "s")
    for v, ok in (("fast", 0), (None, 0), (5, 0), ("auto", 1)):
        args(chk, f"step_duration={v!r}", ok, lambda sc: dict(step_duration=v))
    args(chk, "step_duration in metres", 0, lambda sc: dict(step_duration=sc.q("dt", "m")), ("UnitConversionError",))
    args(chk, "step_duration in days", 1, lambda sc: dict(step_duration=sc.q("dt", "d")))
    args(chk, "total_time in metres", 0, lambda sc: dict(total=sc.q("T", "m")), ("UnitConversionError",))
    args(chk, "total_time in days", 1, lambda sc: dict(total=sc.q("T", "d")))
    for k in (dict(energy=("f",), rel=("f",)), dict(energy=("f",), abs_=("f",)), dict(rel=("f",), abs_=("f",))):
        args(chk, "two functions with the same name: " + " and ".join(sorted(k)), 0, lambda sc: dict(step_duration=q(sc)), **k)
    args(chk, "functions with different names", 1, lambda sc: dict(step_duration=q(sc)), energy=("f", "g"), rel=("h",), abs_=("i",))
    for tag, ok, fs, b in (("inside of the bounds", 1, (1, 2, 3), ("1/2", 4)), ("from bound to bound", 1, (1, 2, 3), (1, 3)), ("below the bounds", 0, (1, 2, 3), ("3/2", 4)),
                           ("above the bounds", 0, (1, 2, 3), ("1/2", "5/2")), ("all below the bounds", 0, (1, 2, 3), (4, 5))):
        def f(sc):
            g, x = points(sc, *fs)
            return dict(initial_gamma_array=g, gamma_bounds=tuple(sc.op(x, "*", number(str(y))) for y in b), step_duration=q(sc))
        args(chk, f"initial Lorentz factors {tag}", ok, f)
    for tag, ok, fs in (("increasing", 1, (1, 2, 4)), ("with a repeated one", 0, (1, 2, 2, 3)), ("decreasing", 0, (3, 2, 1)), ("with one out of order", 0, (1, 3, 2, 4)), ("with the last out of order", 0, (1, 2, 3, "5/2")),
                        ("with the first out of order", 0, (2, 1, 3, 4))):
        args(chk, f"initial Lorentz factors {tag}", ok, lambda sc: dict(initial_gamma_array=points(sc, *fs)[0], step_duration=q(sc)))
    for opt in (True, False, None):
        for m in ("euler", "heun", "Heun", "Euler", "rk4"):
            for auto in (True, False):
                separate = auto if opt is None else opt
                ok = m != "rk4" and not (separate and not auto) and not (separate and m.lower() == "heun")
                args(chk, f"method {m}, {'automatic' if auto else 'given'} steps, optimize_recalculating_slow_rates={opt}", ok,
                     lambda sc: dict(method=m, optimize_recalculating_slow_rates=opt, **({} if auto else dict(step_duration=q(sc)))))
    names = dict(energy=("loss",), rel=("esc",), abs_=("inj",))
    for tag, ok, groups in (("of all functions", 1, [["loss", "esc"], ["inj"]]), ("of some functions", 1, [["loss"], []]), ("with an unknown function", 0, [["loss"], ["esc", "gone"]]),
                            ("with an unknown function in the first", 0, [["gone"], ["esc", "loss"]])):
        args(chk, f"groups {tag}", ok, lambda sc: dict(step_duration=q(sc), subgroups=sc.I.new_list([sc.I.new_list(list(x)) for x in groups])), **names)
    two = [["loss", "esc"], ["inj"]]
    for tag, ok, rows, groups, given in (("for all groups", 1, ((".25", "1", "0"), (".75", "0", "1")), two, True), ("which do not add up", 0, ((".25", "1", "0"), (".75", "0", "1.01")), two, True),
                                         ("which add up to more at the first", 0, ((".5", "1", "0"), (".75", "0", "1")), two, True), ("without groups", 0, (("1", "1", "1"),), None, True),
                                         ("without Lorentz factors", 0, ((".25", "1", "0"), (".75", "0", "1")), two, False), ("for fewer Lorentz factors", 0, ((".25", "1"), (".75", "0")), two, True),
                                         ("for more Lorentz factors", 0, ((".25", "1", "0", "0"), (".75", "0", "1", "1")), two, True), ("for a single group", 1, (("1", "1", "1"),), [["loss", "esc", "inj"]], True),
                                         ("for fewer groups", 0, (("1", "1", "1"),), two, True), ("for more groups", 0, ((".25", "1", "0"), (".75", "0", "1"), ("0", "0", "0")), two, True)):
        def f(sc):
            L = sc.I.new_list
            k = dict(step_duration=q(sc), subgroups_initial_density=sc.np("array", L([L([number(v) for v in r]) for r in rows])))
            if groups is not None:
                k["subgroups"] = L([L(list(x)) for x in groups])
            if given:
                k["initial_gamma_array"] = points(sc, 1, 2, 4)[0]
            return k
        args(chk, f"initial shares {tag}", ok, f, **names)


def states(chk):
    """steps which would lead to states which cannot exist"""
    mec2 = None
    for tag, ok, kind, f in (
            ("an electron loses more than its energy", 0, "energy", lambda sc, g, d, dt, E, y: sc.op(sc.op(E, "*", sc.op(number(-1), "-", y)), "/", dt)),
            ("an electron loses all of its energy", 0, "energy", lambda sc, g, d, dt, E, y: sc.op(sc.op(E, "*", number(-1)), "/", dt)),
            ("an electron keeps some of its energy", 1, "energy", lambda sc, g, d, dt, E, y: sc.op(sc.op(E, "*", sc.op(sc.op(number(1), "/", sc.op(number(1), "+", y)), "-", number(1))), "/", dt)),
            ("the ends of a bin change places", 0, "energy", lambda sc, g, d, dt, E, y: sc.op(sc.op(sc.op(sc.op(E, "/", g), "*", sc.op(y, "/", g)), "-", E), "/", dt)),
            ("more particles escape than there are", 0, "abs", lambda sc, g, d, dt, E, y: sc.op(sc.op(d, "*", sc.op(number(-1), "-", y)), "/", dt)),
            ("half of the particles escape", 1, "abs", lambda sc, g, d, dt, E, y: sc.op(sc.op(d, "*", number("-1/2")), "/", dt)),
            ("more than all particles escape", 0, "rel", lambda sc, g, d, dt, E, y: sc.op(sc.op(sc.op(g, "/", g), "*", sc.op(number(-1), "-", y)), "/", dt)),
            ("half of the particles escape, relative", 1, "rel", lambda sc, g, d, dt, E, y: sc.op(sc.op(sc.op(g, "/", g), "*", number("-1/2")), "/", dt))):
        for method in ("euler", "heun"):
            name = f"{method}: {tag}"
            with Instance(chk, name):
                names = {"energy": dict(energy=("f",)), "abs": dict(energy=("none",), abs_=("f",)), "rel": dict(energy=("none",), rel=("f",))}[kind]
                ev = region(chk, decide=generic_bins if ok else None, **names)
                sc = ev.sc
                dt, y = sc.q("dt", "s"), sc.num("y")
                mec2 = sc.spec("evolution:rest_energy")
                zero = lambda g, d: Num(al.ZERO, U("erg s-1"), g.dims, "f")
                ev.values = {"f": lambda g, d: f(sc, g, d, dt, sc.op(g, "*", mec2), y), "none": zero}
                o = ev.build(initial_gamma_array=sc.arr("g", "N"), step_duration=dt, total=dt, merge_bins_closer_than=None, method=method)
                where = [sc.where(TE + "TimeEvolution", "evaluate")]
                if ok:
                    sc.m(o, "evaluate")
                    chk.ok(name, "possible states are reached")
                else:
                    expect_raises(chk, sc, name, ("ValueError",), lambda: sc.m(o, "evaluate"), where, "impossible states raise")
                chk.absorb(sc)
    for tag, ok, v in (("particles leave an empty region", 0, -1), ("particles enter an empty region", 1, 1)):
        with Instance(chk, tag):
            ev = region(chk, decide=None, abs_=("f",), empty=True)
            sc = ev.sc
            y = sc.q("y", "cm-3 s-1")
            ev.values = {"f": lambda g, d: sc.op(y, "*", sc.op(sc.op(g, "/", g), "*", number(v)))}
            o = ev.build(initial_gamma_array=points(sc, 1, 2, 4)[0], merge_bins_closer_than=None)
            where = [sc.where(TE + "TimeEvolution", "evaluate")]
            if not ok:
                expect_raises(chk, sc, tag, ("ValueError",), lambda: sc.m(o, "evaluate"), where, "impossible states raise")
            chk.absorb(sc)


def run(chk):
    arguments(chk)
    states(chk)
