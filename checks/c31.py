"""Value-flow analysis of the bins of the time evolution over known Lorentz
factors: the functions of the user move the bins to given places in one step
(densities and shares stay unknown), where they coincide, come too close,
change places, or leave and move away from the bounds."""
from evol import *
from fractions import Fraction as F
import math

MINIMUM = 1300
RULE = "bins are merged, removed and added as documented"
G = ["100", "200", "400", "800", "1600", "3200"]
FACT = ["1", "2", "1/2", "3", "1/3", "2"]
UP = F("1.0001")
A = "agnpy.spectra:InterpolatedDistribution"


def present(a):
    """the densities do not vanish"""
    r = generic_bins(a)
    if r is None and a.kind == "ind" and a.args[0] == "eq0":
        signs = set()
        for m, c in al.expand_terms(a.args[1]).items():
            if any(not al.ATOMS[i].pos for i, q in m):
                return None
            signs.add(c > 0)
        return False if len(signs) == 1 else None
    return r


class Placed(Evolution):
    """the function `move` brings the bin at start[i] to end[i] within one step and makes it denser by fact[i]"""

    def __init__(self, chk, start, end, fact=FACT, turn=None, **kw):
        self.places = {}
        for i, (s, e) in enumerate(zip(start, end)):
            s, e = F(s), F(e)
            self.places[s] = e - s
            self.places[s * UP] = e + s * (UP - 1) / F(fact[i % len(fact)]) - s * UP
        self.turn = turn
        super().__init__(chk, energy=("move",), state=False, decide=present, **kw)

    def user(self, name, unit):
        if name != "move":
            return super().user(name, unit)
        sc = self.sc

        def h(I, f, args, kwargs):
            g = sc.attr(args[0], "gamma")
            axes = g.dims[0][1] if len(g.dims) == 1 and isinstance(g.dims[0], tuple) and g.dims[0][0] == "flat" else g.dims
            node = self.moved(g.node, list(axes)) if self.state() is None else None
            if node is not None:
                e = sc.spec("evolution:at_rest", Num(node, None, g.dims, "f", arr=True))
                return sc.m(sc.op(e, "/", sc.q("T", "s")), "to", U("erg s-1"))
            return self.value(name, g, None, None, None, unit)
        return UserFunc(name, handler=h)

    def value(self, name, g, *a):
        if name != "inj":
            return super().value(name, g, *a)
        un = U(UNITS["abs"])
        return Num(al.mul2(al.fn("user:inj", al.canon(g.node), pos=True), unit_scale(un)), un, g.dims, "f")

    def moved(self, e, axes):
        """the change of the Lorentz factor of each of the bins"""
        if not axes:
            c = al.const(al.canon(e))
            return None if c is None or F(c) not in self.places else number(str(self.places[F(c)])).node
        d = axes[0]
        if d == 1:
            return self.moved(e, axes[1:])
        k = models.dim_size(d)
        if k is None or k > 40:
            return None
        items = [self.moved(al.at_index(e, d, ("i", i)), axes[1:]) for i in range(k)]
        return None if None in items else al.vec(d, items)


def mean(sc, xs):
    p = number(1)
    for x in xs:
        p = sc.op(p, "*", number(str(x)))
    return sc.op(p, "**", number(f"1/{len(xs)}"))


def scenario(chk, tag, end, merged, keep=None, start=G, fact=FACT, near=None, groups=False, method="euler", bounds=None, low=None, up=None, inj=False, **kw):
    """merged: list of lists of the positions (in the order of the new Lorentz factors) which become one bin"""
    with Instance(chk, tag):
        names = dict(rel=(), abs_=("inj",) if inj else ())
        ev = Placed(chk, start, end, fact, **names)
        sc = ev.sc
        L = sc.I.new_list
        n = len(start)
        more = {}
        if near is not None:
            more["merge_bins_closer_than"] = None if near == "never" else number(near)
        share = None
        if groups:
            share = [sc.num(f"f{i}") for i in range(n)]
            first = sc.np("array", L(share))
            more["subgroups"] = L([L(["move"]), L(["move"])])
            more["subgroups_initial_density"] = sc.np("array", L([first, sc.op(number(1), "-", first)]))
        if bounds:
            more["gamma_bounds"] = tuple(number(x) for x in bounds)
        g0 = sc.np("array", L([number(x) for x in start]), dtype=Ext("builtins.float"))
        T = sc.q("T", "s")
        o = ev.build(initial_gamma_array=g0, callback=True, step_duration=T, total=T, **more, **kw)
        res = sc.m(o, "evaluate")
        where = [sc.where(TE + "TimeEvolution", "evaluate")]
        chk.absorb(sc)
        if len(ev.records) != 1:
            chk.violate(f"{tag}: number of records", RULE, f"{len(ev.records)} records of one step", where)
            return
        rec, ne, st = ev.records[0]
        # the state after the step
        dens = []
        for i in range(n):
            d = ev.n0(number(start[i]))
            d = sc.op(d, "*", number(fact[i % len(fact)]))
            if inj:
                d = sc.op(d, "+", sc.op(ev.value("inj", number(start[i]), None, None, None, UNITS["abs"]), "*", T))
            dens.append(d)
        order = sorted(range(n), key=lambda i: (F(end[i]), i))
        gs, ds = [F(end[i]) for i in order], [dens[i] for i in order]
        # Lorentz factors which coincide are one bin of their mean density
        cells = []  # (Lorentz factor, density, index of the first)
        for i, x in enumerate(gs):
            if cells and cells[-1][0] == x:
                cells[-1][1].append(ds[i])
            else:
                cells.append((x, [ds[i]], order[i]))
        flat = []
        for x, d, i in cells:
            s = d[0]
            for y in d[1:]:
                s = sc.op(s, "+", y)
            flat.append((number(str(x)), sc.op(s, "/", number(len(d))), i, len(d) > 1))
        dist = sc.call(A, sc.np("array", L([x for x, _, _, _ in flat])), QQ(sc, [d for _, d, _, _ in flat]), interpolator=Ext("scipy.interpolate.PchipInterpolator"))
        for k, w in (("gamma_input", [x for x, _, _, _ in flat]), ("n_input", [d for _, d, _, _ in flat])):
            compare_items(chk, sc, f"{tag}: distribution of the region: {k}", sc.attr(ne, k), w, where)
        final = []
        for grp in merged:
            if len(grp) == 1:
                x, d, i, twice = flat[grp[0]]
                # several bins at one place: the value of the new distribution there
                final.append((x, sc.call(dist, x.replace(arr=True)) if twice else d, i))
            else:
                x = mean(sc, [al.const(flat[j][0].node) for j in grp])
                final.append((x, sc.call(dist, x.replace(arr=True)), flat[grp[0]][2]))
        zero = Num(al.ZERO, U("cm-3"), (), "f")
        if low is not None:
            final.insert(0, (low, zero, None))
        if up is not None:
            final.append((up, zero, None))
        for who, r in (("record", rec), ("result", res)):
            t = f"{tag}: {who}"
            compare_items(chk, sc, f"{t}: Lorentz factors", sc.attr(r, "gamma"), [x for x, _, _ in final], where)
            compare_items(chk, sc, f"{t}: densities", sc.attr(r, "density"), [d for _, d, _ in final], where)
            sh = sc.attr(r, "density_subgroups")
            if groups:
                rows = [[share[i] if i is not None else number(1) for _, _, i in final], [sc.op(number(1), "-", share[i]) if i is not None else number(0) for _, _, i in final]]
            else:
                rows = [[number(1)] * len(final)]
            for j, row in enumerate(rows):
                compare_items(chk, sc, f"{t}: shares of group {j + 1}", sc.item(sh, j), row, where)
            rate = sc.I.cur(sc.I.hget(sc.attr(r, "en_chg_rates").loc)["move"])
            compare_items(chk, sc, f"{t}: rates", rate, [ev.value("move", x, None, None, None, UNITS["energy"]) for x, _, _ in final], where)


def compare_items(chk, sc, name, got, want, where):
    got = models.as_num(sc.I, got)
    k = models.dim_size(got.dims[0]) if len(got.dims) == 1 else None
    if k != len(want):
        if k is None:
            chk.undecided(name, RULE, f"number of bins not known: {got.dims}", where)
        else:
            chk.violate(name, RULE, f"{k} bins instead of {len(want)}", where)
        return
    for i, w in enumerate(want):
        expect_equal(chk, sc, f"{name} [{i}]", RULE, sc.item(got, i), w, where)


def run(chk):
    one = lambda *g: [list(x) if isinstance(x, tuple) else [x] for x in g]
    scenario(chk, "no bins close", ["110", "190", "410", "790", "1610", "3190"], one(0, 1, 2, 3, 4, 5), inj=True)
    scenario(chk, "bins change places", ["110", "600", "410", "5000", "1610", "3190"], one(0, 1, 2, 3, 4, 5), groups=True)
    scenario(chk, "two bins at one place", ["100", "300", "300", "800", "1600", "3200"], one(0, 1, 2, 3, 4), inj=True)
    scenario(chk, "two pairs of bins at one place", ["100", "300", "300", "1000", "1000", "3200"], one(0, 1, 2, 3), near="never", groups=True)
    scenario(chk, "three bins at one place out of order", ["100", "500", "400", "500", "500", "3200"], one(0, 1, 2, 3), near="never")
    scenario(chk, "close pair", ["100", "200", "220", "800", "1600", "3200"], one(0, (1, 2), 3, 4, 5), near="1/10", inj=True)
    scenario(chk, "close pair, groups", ["100", "200", "400", "800", "900", "3200"], one(0, 1, 2, (3, 4), 5), near="1/10", groups=True)
    scenario(chk, "three close bins", ["100", "200", "220", "240", "1600", "3200"], one(0, (1, 2, 3), 4, 5), near="1/10", groups=True)
    scenario(chk, "two close pairs", ["100", "200", "220", "800", "820", "3200"], one(0, (1, 2), (3, 4), 5), near="1/10")
    scenario(chk, "chain of close bins", ["100", "200", "230", "265", "300", "3200"], one(0, (1, 2, 3, 4), 5), near="1/10")
    scenario(chk, "close to the first and to the last", ["100", "110", "400", "800", "3000", "3200"], one(0, 1, 2, 3, 4, 5), near="1/10")
    scenario(chk, "never merged", ["100", "200", "200.1", "800", "1600", "3200"], one(0, 1, 2, 3, 4, 5), near="never")
    scenario(chk, "default distance", ["100", "200", "200.6", "800", "803", "3200"], one(0, (1, 2), 3, 4, 5))
    scenario(chk, "one place and close to another", ["100", "300", "300", "310", "1600", "3200"], one(0, (1, 2), 3, 4), near="1/10")

    b = ("100", "3200")
    edge = "32000000/10001"
    scenario(chk, "first bin moved inwards", ["130", "210", "410", "810", "1610", "3190"], one(0, 1, 2, 3, 4, 5), bounds=b, low=number(100), groups=True)
    scenario(chk, "first bin moved inwards a little", ["120", "290", "410", "810", "1610", "2650"], one(0, 1, 2, 3, 4, 5), bounds=b)
    scenario(chk, "last bin moved inwards", ["110", "210", "410", "810", "1610", "2500"], one(0, 1, 2, 3, 4, 5), bounds=b, up=number(edge), groups=True)
    scenario(chk, "both moved inwards", ["140", "210", "410", "810", "1610", "2000"], one(0, 1, 2, 3, 4, 5), bounds=b, low=number(100), up=number(edge), inj=True)
    scenario(chk, "far from the bounds but moving outwards", ["140", "210", "410", "810", "1610", "2450"], one(0, 1, 2, 3, 4, 5), start=["150", "200", "400", "800", "1600", "2400"], bounds=b)
    scenario(chk, "other distance from the bounds", ["190", "290", "410", "810", "1010", "1700"], one(0, 1, 2, 3, 4, 5), bounds=b, max_bin_creep_from_bounds=number("3/10"))
    scenario(chk, "other distance from the bounds, beyond", ["200", "290", "410", "810", "1010", "1590"], one(0, 1, 2, 3, 4, 5), bounds=b, max_bin_creep_from_bounds=number("3/10"), low=number(100), up=number(edge))
    scenario(chk, "first bin left", ["90", "195", "390", "790", "1590", "3190"], one(1, 2, 3, 4, 5), bounds=b, groups=True)
    scenario(chk, "last bins left", ["101", "210", "410", "810", "3300", "6300"], one(0, 1, 2, 3), bounds=b, groups=True)
    scenario(chk, "bins at the bounds", ["100", "210", "410", "810", "1610", "3200"], one(0, 1, 2, 3, 4), bounds=b)
    scenario(chk, "bins within and beyond the last one", ["100", "210", "410", "810", "3199.6", "3199.8"], one(0, 1, 2, 3, 4), bounds=b, near="never")
    scenario(chk, "one bin left and one added", ["90", "190", "210", "810", "1590", "2500"], one(1, 2, 3, 4, 5), bounds=b, up=number(edge), near="never")
    scenario(chk, "merged and left", ["90", "200", "220.5", "800", "1600", "3300"], one((1, 2), 3, 4), bounds=b, near="1/10", groups=True)
