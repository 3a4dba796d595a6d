"""Hash-consed value graph with an algebraic normal form.

A value is an :class:`E`: ``coefficient * product(atom ** exponent)``.  Atoms
are interned: inputs, physical constants, sums of products (``sum``), indicator
functions of comparisons (``ind``), bound index variables of grids (``t``),
integrals (``int``), symbolic powers (``spow``) and opaque applications of
functions.  Two expressions that are equal as rational functions of their atoms
are recognised as equal by :func:`equal`, whatever the way they were written.
The comparison first tries to tell two expressions apart under random
interpretations of their atoms (:mod:`refute`).
"""
from fractions import Fraction as F
from functools import lru_cache
from math import isqrt

MAXTERMS = 4000


class AlgebraLimit(Exception):
    pass


CURRENT_SRC = [None]  # (file, line, function) set by the interpreter


class Atom:
    __slots__ = ("id", "kind", "args", "pos", "deps", "src", "has_ind")

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_TABLE = {}


def _intern(kind, args, pos=False, deps=frozenset(), has_ind=False):
    key = (kind, args)
    a = _TABLE.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args, a.pos, a.deps = kind, args, pos, deps
        a.has_ind = has_ind
        a.src = CURRENT_SRC[0]
        ATOMS.append(a)
        _TABLE[key] = a
    return a


class E:
    """coefficient times a monomial (tuple of (atom id, exponent))"""

    __slots__ = ("c", "m", "_h")

    def __init__(self, c, m=()):
        self.c = c
        self.m = m if c else ()
        self._h = hash((self.c, self.m))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, E) and self.c == o.c and self.m == o.m

    def __repr__(self):
        return show(self)

    # operators (used by the checkers when writing references)
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, mul(MINUS1, lift(o)))

    def __rsub__(self, o):
        return add(lift(o), mul(MINUS1, self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(lift(o)))

    def __rtruediv__(self, o):
        return mul(lift(o), inv(self))

    def __pow__(self, q):
        return power(self, lift(q))

    def __neg__(self):
        return mul(MINUS1, self)


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return E(F(x))
    if isinstance(x, F):
        return E(x)
    if isinstance(x, float):
        return E(num(x))
    raise TypeError(f"cannot lift {x!r}")


def num(x):
    """exact rational of a literal, as written"""
    if isinstance(x, int):
        return F(x)
    return F(repr(float(x)))


ZERO = E(F(0))
ONE = E(F(1))
MINUS1 = E(F(-1))


def const(e):
    """rational value of a constant expression, None otherwise"""
    return e.c if not e.m else None


# ---------------------------------------------------------------- atoms
def atom_expr(a, q=F(1)):
    return E(F(1), ((a.id, q),))


def sym(name, pos=False, deps=()):
    """named input"""
    return atom_expr(_intern("sym", (name,), pos, frozenset(deps)))


def tvar(dim):
    """index variable of a grid with uniform spacing, running from 0 to 1"""
    return atom_expr(_intern("t", (dim,), True, frozenset([dim])))


PI = sym("pi", True)
LN10 = sym("ln10", True)
INF = sym("inf", True)
NAN = sym("nan")


def deps_m(m):
    if not m:
        return frozenset()
    if len(m) == 1:
        return ATOMS[m[0][0]].deps
    r = set()
    for i, _ in m:
        r |= ATOMS[i].deps
    return frozenset(r)


def deps(e):
    return deps_m(e.m)


def has_ind_m(m):
    for i, _ in m:
        a = ATOMS[i]
        if a.kind == "ind" or a.has_ind:
            return True
    return False


def has_ind(e):
    return has_ind_m(e.m)


# ------------------------------------------------------------- products
def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _prime(p):
    return _intern("num", (p,), True)


def mul2(a, b):
    if not a.c or not b.c:
        return ZERO
    if not a.m:
        return E(a.c * b.c, b.m)
    if not b.m:
        return E(a.c * b.c, a.m)
    d = dict(a.m)
    c = a.c * b.c
    for i, q in b.m:
        d[i] = d.get(i, 0) + q
    return _norm(c, d)


def _norm(c, d):
    out = []
    c0 = c
    for i in sorted(d):
        q = d[i]
        if q == 0:
            continue
        k = ATOMS[i].kind
        if k == "ind":
            q = F(1) if q > 0 else F(-1)
        elif k == "num" and (q >= 1 or q < 0):
            fl = q.numerator // q.denominator
            c = c * F(ATOMS[i].args[0]) ** fl
            q = q - fl
            if q == 0:
                continue
        elif k == "abs" and q.denominator == 1 and q % 2 == 0:
            # |x|**2n = x**2n
            return mul(_norm(c0, {j: e for j, e in d.items() if j != i}),
                       ipow(ATOMS[i].args[0], int(q)))
        out.append((i, q))
    return E(c, tuple(out))


def mul(*xs):
    r = ONE
    for x in xs:
        r = mul2(r, x)
    return r


def ipow(e, n):
    if n == 0:
        return ONE
    if not e.c:
        if n < 0:
            return INF
        return ZERO
    return _norm(e.c ** n, {i: q * n for i, q in e.m})


def inv(e):
    return power(e, MINUS1)


# ----------------------------------------------------------------- sums
def _sin2(i, q):
    a = ATOMS[i]
    return q.denominator == 1 and q >= 2 and a.kind == "fn" and a.args[0] == "sin"


def _pyth(m):
    """sin(x)**2 = 1 - cos(x)**2"""
    for i, q in m:
        if _sin2(i, q):
            return True
    return False


def _split_pyth(e):
    keep, sums = {}, []
    for i, q in e.m:
        if _sin2(i, q):
            k = q.numerator // 2
            if q.numerator % 2:
                keep[i] = F(1)
            sums.append((sub(ONE, ipow(fn("cos", ATOMS[i].args[1]), 2)), k))
        else:
            keep[i] = q
    r = E(e.c, tuple(sorted(keep.items())))
    for s, k in sums:
        r = mul2(r, ipow(s, k))
    return r


def expand_terms(e, limit=MAXTERMS):
    """distribute the positive integer powers of sums; dict monomial->coef"""
    if not e.c:
        return {}
    if _pyth(e.m):
        e = _split_pyth(e)
    sums = [(i, q) for i, q in e.m
            if ATOMS[i].kind == "sum" and q.denominator == 1 and q > 0]
    if not sums:
        return {e.m: e.c}
    rest = tuple((i, q) for i, q in e.m
                 if not (ATOMS[i].kind == "sum" and q.denominator == 1 and q > 0))
    acc = {rest: e.c}
    for i, q in sums:
        terms = ATOMS[i].args[0]
        for _ in range(int(q)):
            new = {}
            if len(acc) * len(terms) > limit:
                raise AlgebraLimit(f"more than {limit} terms")
            for m1, c1 in acc.items():
                for m2, c2 in terms:
                    p = mul2(E(c1, m1), E(c2, m2))
                    # products may re-create sums (|s|**2): expand again
                    if any(ATOMS[j].kind == "sum" and r.denominator == 1 and r > 0
                           for j, r in p.m) or _pyth(p.m):
                        for mm, cc in expand_terms(p, limit).items():
                            new[mm] = new.get(mm, 0) + cc
                    else:
                        new[p.m] = new.get(p.m, 0) + p.c
            acc = {m: c for m, c in new.items() if c}
    return acc


_SIGN = {}


def _negative(items):
    """which of s and -s represents the sum: the one which is positive at a fixed
    interpretation inside the domain (1 - cos psi rather than cos psi - 1)"""
    if all(c > 0 for _, c in items) and all(ATOMS[i].pos for m, _ in items for i, _ in m):
        return False
    r = _SIGN.get(items)
    if r is None:
        from . import refute
        r = _SIGN[items] = refute.negative(items)
    return r


def from_terms(acc):
    acc = {m: c for m, c in acc.items() if c}
    if not acc:
        return ZERO
    if len(acc) == 1:
        (m, c), = acc.items()
        return E(c, m)
    # common Laurent monomial
    it = iter(acc)
    common = dict(next(it))
    keys = set(common)
    first = True
    for m in acc:
        d = dict(m)
        if first:
            first = False
        for k in list(keys):
            if k not in d:
                v = common[k]
                common[k] = min(v, F(0))
            else:
                common[k] = min(common[k], d[k])
        for k, q in d.items():
            if k not in keys:
                keys.add(k)
                common[k] = min(F(0), q)
        # (exponent 0 where absent)
    common = {k: q for k, q in common.items()
              if q and ATOMS[k].kind not in ("ind", "num")}
    g = {k: q for k, q in common.items()}
    # a shared indicator or radical can be factored out as well
    for k in set(dict(next(iter(acc)))):
        if ATOMS[k].kind in ("ind", "num"):
            qs = {dict(m).get(k) for m in acc}
            if len(qs) == 1:
                g[k] = qs.pop()
    new = {}
    for m, c in acc.items():
        d = dict(m)
        for k, q in g.items():
            d[k] = d.get(k, F(0)) - q
        mm = tuple((i, d[i]) for i in sorted(d) if d[i])
        new[mm] = c
    if g and any(ATOMS[i].kind == "sum" and q.denominator == 1 and q > 0 for m in new for i, q in m):
        acc2 = {}
        try:
            for m, c in new.items():
                for mm, cc in expand_terms(E(c, m), 24).items():
                    acc2[mm] = acc2.get(mm, 0) + cc
        except AlgebraLimit:
            acc2 = None
        if acc2 is not None and len(acc2) <= 24:
            return mul2(_norm(F(1), dict(g)), from_terms(acc2))
    items = sorted(new.items(), key=lambda t: t[0])
    lead = items[0][1]
    items = tuple((m, c / lead) for m, c in items)
    if _negative(items):
        lead = -lead
        items = tuple((m, -c) for m, c in items)
    pos = all(c > 0 for _, c in items) and all(
        all(ATOMS[i].pos for i, _ in m) for m, _ in items) and any(
        all(ATOMS[i].kind != "ind" for i, _ in m) for m, _ in items)
    dp = frozenset().union(*[deps_m(m) for m, _ in items])
    hi = any(has_ind_m(m) for m, _ in items)
    a = _intern("sum", (items,), pos, dp, hi)
    return mul2(_norm(lead, dict(g)), atom_expr(a))


def add(*xs):
    xs = [x for x in xs if x.c]
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    acc = {}
    # pull out the common factor of the addends first (keeps sums small)
    common = None
    for x in xs:
        d = {i: q for i, q in x.m}
        if common is None:
            common = d
        else:
            common = {i: min(q, d[i]) if (q > 0) == (d[i] > 0) and q > 0 else
                      (max(q, d[i]) if q < 0 and d[i] < 0 else F(0))
                      for i, q in common.items() if i in d}
            common = {i: q for i, q in common.items() if q}
        if not common:
            break
    if common:
        common = {i: q for i, q in common.items()
                  if ATOMS[i].kind not in ("ind", "num", "abs") and
                  not (ATOMS[i].kind == "sum" and q.denominator != 1)}
    if common:
        g = E(F(1), tuple((i, common[i]) for i in sorted(common)))
        gi = E(F(1), tuple((i, -common[i]) for i in sorted(common)))
        ys = [mul2(x, gi) for x in xs]
    else:
        g = ONE
        ys = xs
    for y in ys:
        for m, c in expand_terms(y).items():
            acc[m] = acc.get(m, 0) + c
    return mul2(g, from_terms(acc))


def sub(a, b):
    return add(a, mul2(MINUS1, b))


@lru_cache(maxsize=None)
def canon(e):
    """expanded form (used inside interned function atoms)"""
    try:
        t = expand_terms(e, 600)
    except AlgebraLimit:
        return e
    if len(t) == 1 and e.m in t:
        return e
    return from_terms(t)


# -------------------------------------------------------------- equality
def _int_parts(m, c):
    """split the integer powers >= 1 of sums (also negated) and sin**2 off a monomial"""
    keep, polys = {}, []
    for i, q in m:
        a = ATOMS[i]
        if a.kind in ("sum", "nsum") and q >= 1:
            fl = q.numerator // q.denominator
            base = a if a.kind == "sum" else ATOMS[a.args[0]]
            if a.kind == "nsum" and fl % 2:
                c = -c
            if base.kind == "sum":
                polys.append((base.args[0], fl))
            else:
                keep[base.id] = keep.get(base.id, F(0)) + fl
            if q - fl:
                keep[i] = keep.get(i, F(0)) + q - fl
        elif a.kind == "nsum" and q.denominator == 1:
            base = ATOMS[a.args[0]]
            if q.numerator % 2:
                c = -c
            keep[base.id] = keep.get(base.id, F(0)) + q
        elif _sin2(i, q):
            fl = q.numerator // 2
            if q.numerator % 2:
                keep[i] = keep.get(i, F(0)) + 1
            x = sub(ONE, ipow(fn("cos", a.args[1]), 2))
            if len(x.m) == 1 and ATOMS[x.m[0][0]].kind == "sum" and x.m[0][1] == 1:
                c = c * x.c ** fl
                polys.append((ATOMS[x.m[0][0]].args[0], fl))
            else:
                keep[i] = keep.get(i, F(0)) + 2 * fl
        else:
            keep[i] = keep.get(i, F(0)) + q
    return _norm(c, keep), polys


def full_terms(terms, limit):
    """numerator of a sum of terms over the common denominator, fully multiplied out"""
    for _ in range(60):
        changed = False
        new = {}
        for m, c in terms.items():
            e, polys = _int_parts(m, c)
            acc = {e.m: e.c}
            for items, n in polys:
                changed = True
                for _ in range(n):
                    nxt = {}
                    for m1, c1 in acc.items():
                        for m2, c2 in items:
                            p = mul2(E(c1, m1), E(c2, m2))
                            if p.c:
                                nxt[p.m] = nxt.get(p.m, 0) + p.c
                    acc = {x: y for x, y in nxt.items() if y}
                    if len(acc) > limit:
                        raise AlgebraLimit("expansion")
            if (e.m, e.c) != (m, c):
                changed = True
            for mm, cc in acc.items():
                new[mm] = new.get(mm, 0) + cc
        terms = {m: c for m, c in new.items() if c}
        if len(terms) > limit:
            raise AlgebraLimit("expansion")
        if changed:
            continue
        den = {}
        for m in terms:
            for i, q in m:
                if ATOMS[i].kind in ("sum", "nsum") and q < 0:
                    den[i] = min(den.get(i, F(0)), q)
        if not den:
            return terms
        f = E(F(1), tuple((i, F(-(den[i].numerator // den[i].denominator))) for i in sorted(den)))
        new = {}
        for m, c in terms.items():
            p = mul2(E(c, m), f)
            new[p.m] = new.get(p.m, 0) + p.c
        terms = {m: c for m, c in new.items() if c}
    raise AlgebraLimit("expansion does not end")


@lru_cache(maxsize=None)
def is_zero(e, limit=60000):
    if not e.c:
        return True
    sums = [i for i, q in e.m if ATOMS[i].kind == "sum"]
    if not sums:
        return False
    # a product is zero iff one of its factors is
    for i, q in e.m:
        if q > 0 and ATOMS[i].kind == "sum" and not full_terms(dict(ATOMS[i].args[0]), limit):
            return True
    # indicators: the expansion may cancel only once multiplied out
    if has_ind(e) and len(sums) > 1:
        return not full_terms({e.m: e.c}, limit)
    return False


def equal(a, b):
    """equality as functions of the atoms; atoms that differ only in how an argument
    is written (integrals with equal integrands, functions of equal arguments) are
    identified first"""
    if a == b:
        return True
    try:
        if canon(a) == canon(b):
            return True
    except AlgebraLimit:
        pass
    from . import refute
    if refute.differ(a, b):
        return False
    try:
        if _equal0(a, b):
            return True
    except AlgebraLimit:
        # the arguments of the atoms may have to be identified first
        r = unify(a, b)
        if r is None:
            raise
        return _equal0(*r)
    r = unify(a, b)
    if r is None:
        return False
    return _equal0(*r)


_UNIFY_DEPTH = [0]


def unify(a, b):
    """(a', b') with the atoms of b replaced by equal atoms of a; None when there are none"""
    if _UNIFY_DEPTH[0] > 8:
        return None
    pa, pb = poly_atoms(a), poly_atoms(b)
    left, right = sorted(pa - pb), sorted(pb - pa)
    if not left or not right or len(left) > 40 or len(right) > 40:
        return None
    _UNIFY_DEPTH[0] += 1
    try:
        tab = {}
        for j in right:
            for i in left:
                if same_atom(i, j):
                    tab[j] = atom_expr(ATOMS[i])
                    break
    finally:
        _UNIFY_DEPTH[0] -= 1
    if not tab:
        return None
    return a, map_poly(b, tab)


def poly_atoms(e, out=None):
    """opaque atoms at the polynomial level"""
    out = set() if out is None else out
    for i, _ in e.m:
        a = ATOMS[i]
        if a.kind == "sum":
            for m, c in a.args[0]:
                poly_atoms(E(c, m), out)
        elif a.kind == "nsum":
            poly_atoms(atom_expr(ATOMS[a.args[0]]), out)
        elif a.kind not in ("sym", "num", "t"):
            out.add(i)
    return out


def map_poly(e, tab):
    out = E(e.c)
    for i, q in e.m:
        a = ATOMS[i]
        if i in tab:
            x = tab[i]
        elif a.kind in ("sum", "nsum") and not (poly_atoms(atom_expr(a)) & tab.keys()):
            x = atom_expr(a)
        elif a.kind == "sum":
            x = add(*[map_poly(E(c, m), tab) for m, c in a.args[0]])
        elif a.kind == "nsum":
            x = mul2(MINUS1, map_poly(atom_expr(ATOMS[a.args[0]]), tab))
        else:
            x = atom_expr(a)
        out = mul2(out, rpow(x, q) if q != 1 else x)
    return out


@lru_cache(maxsize=None)
def same_atom(i, j):
    A, B = ATOMS[i], ATOMS[j]
    if A.kind != B.kind or len(A.args) != len(B.args) or A.deps != B.deps or A.kind in ("at", "spow"):
        return False
    for x, y in zip(A.args, B.args):
        if isinstance(x, E) and isinstance(y, E):
            if A.kind == "ind" and A.args[0] == "ge0" and not (x == y):
                # same sign
                if not equal(x, y):
                    return False
            elif not equal(x, y):
                return False
        elif x != y:
            return False
    return True


def _equal0(a, b, depth=0):
    if a == b:
        return True
    try:
        if canon(a) == canon(b):
            return True
    except AlgebraLimit:
        pass
    inds = ind_atoms(a) | ind_atoms(b)
    if inds and depth < 8:
        # cofactors with respect to an indicator
        i = min(inds)
        tabs = _consequences(i)
        for v in (True, False):
            x, y = set_ind(a, i, v), set_ind(b, i, v)
            for j, w in tabs[v]:
                if j in inds:
                    x, y = set_ind(x, j, w), set_ind(y, j, w)
            if not _equal0(x, y, depth + 1):
                s = _known_sign(i, v)
                if s is None:
                    return False
                # |s| is s or -s here; s vanishes where s >= 0 and s <= 0
                at, pos = s
                x, y = _drop_abs(x, at, pos), _drop_abs(y, at, pos)
                o = [j for j, w in tabs[not v] if w is not None and ATOMS[j].args[0] == "ge0" and j in inds]
                if v and o:
                    if not _equal0(set_ind(x, o[0], False), set_ind(y, o[0], False), depth + 1):
                        return False
                    x, y = set_ind(x, o[0], True), set_ind(y, o[0], True)
                    x, y = _vanish(x, at), _vanish(y, at)
                if not _equal0(x, y, depth + 1):
                    return False
        return True
    if not a.c or not b.c:
        return is_zero(a if a.c else b)
    # cancel the common factors
    if not inds:
        r = mul2(a, ipow(b, -1))
        if not r.m:
            return r.c == 1
        a = E(r.c, tuple((i, q) for i, q in r.m if q > 0))
        b = E(F(1), tuple((i, -q) for i, q in r.m if q < 0))
    if a.m == b.m:
        return a.c == b.c
    if not full_terms({a.m: a.c, b.m: -b.c}, 60000):
        return True
    if depth < 8:
        # the two signs of an absolute value
        for i in sorted(poly_atoms(a) | poly_atoms(b)):
            x = ATOMS[i].args[0] if ATOMS[i].kind == "abs" else None
            if x is not None and len(x.m) == 1 and x.m[0][0] in _factors(a) | _factors(b):
                return all(_equal0(map_poly(a, {i: y}), map_poly(b, {i: y}), depth + 1) for y in (x, mul2(MINUS1, x)))
    return False


def _factors(e):
    return {i for i, _ in e.m} | {i for j, _ in e.m if ATOMS[j].kind == "sum" for m, _ in ATOMS[j].args[0] for i, _ in m}


def _consequences(i):
    """{value of the indicator: [(other indicator, its value)]}"""
    a = ATOMS[i]
    out = {True: [], False: []}
    if a.args[0] != "ge0":
        return out
    x = a.args[1]
    m = E(-x.c, x.m)
    j = _INTERN_IND(("ge0", m), deps(m))
    out[False].append((j, True))
    if len(x.m) == 1 and x.m[0][1] == 1:
        y = E(F(1), x.m)
        out[False].append((_INTERN_IND(("eq0", y), deps(y)), False))
    return out


def _INTERN_IND(args, dp):
    return _intern("ind", args, True, dp).id


def _known_sign(i, v):
    """(atom, is it >= 0) when the value of the indicator fixes the sign of one atom"""
    a = ATOMS[i]
    if a.args[0] != "ge0":
        return None
    x = a.args[1]
    if len(x.m) != 1 or x.m[0][1] != 1:
        return None
    return x.m[0][0], (x.c > 0) == v


def _drop_abs(e, at, pos):
    k = _abs_id(at)
    if k is None or k not in poly_atoms(e):
        return e
    s = atom_expr(ATOMS[at])
    return map_poly(e, {k: s if pos else mul2(MINUS1, s)})


def _abs_id(at):
    k = _TABLE.get(("abs", (canon(atom_expr(ATOMS[at])),)))
    return None if k is None else k.id


def _vanish(e, at):
    """the value where the atom is zero (as far as it is a factor)"""
    for i, q in e.m:
        if i == at:
            return ZERO if q > 0 else E(F(1), ((_INF_ID, F(1)),))
    return e


# ---------------------------------------------------------------- powers
def as_terms(e):
    return expand_terms(canon(e))


def _is_pos(e):
    return e.c > 0 and all(ATOMS[i].pos for i, _ in e.m)


def absval(e):
    if not e.c:
        return ZERO
    if has_ind(e):
        r = shannon([e], lambda x: absval(x))
        if r is not None:
            return r
    out = E(abs(e.c))
    rest = {}
    for i, q in e.m:
        a = ATOMS[i]
        if a.pos or (q.denominator == 1 and q % 2 == 0) or q.denominator % 2 == 0:
            out = mul2(out, E(F(1), ((i, q),)))
        else:
            rest[i] = q
    for i, q in rest.items():
        at = _intern("abs", (canon(atom_expr(ATOMS[i])),), True, ATOMS[i].deps)
        out = mul2(out, atom_expr(at, q))
    return out


@lru_cache(maxsize=None)
def _square_root(i):
    """|a + b| when the sum is a^2 + 2 a b + b^2"""
    items = ATOMS[i].args[0]
    if len(items) != 3:
        return None
    def root(c, m):
        if c <= 0 or any(ATOMS[j].kind == "ind" or not (ATOMS[j].pos or (x.denominator == 1 and x % 2 == 0)) for j, x in m):
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return E(F(n, d), tuple((j, x / 2) for j, x in m))

    for k in range(3):
        (m1, c1), (m2, c2) = [items[j] for j in range(3) if j != k]
        m, c = items[k]
        if c1 <= 0:
            continue
        a, b = root(F(1), m1), root(c2 / c1, m2)
        if a is None or b is None:
            continue
        p = mul2(E(F(2)), mul2(a, b))
        if p.m == m and abs(c / c1) == p.c:
            return mul2(rpow(E(c1), F(1, 2)), absval(add(a, b if c > 0 else mul2(MINUS1, b))))
    return None


def rpow(e, q):
    """power with a rational exponent"""
    q = F(q)
    if q.denominator == 1:
        n = int(q)
        if n < 0 and has_ind(e):
            r = shannon([e], lambda x: ipow(x, n), strict=True)
            if r is not None:
                return r
            at = _intern("fn", ("ipow", canon(e), E(F(n))), False, deps(e), False)
            return atom_expr(at)
        return ipow(e, n)
    if not e.c:
        return ZERO if q > 0 else INF
    if has_ind(e):
        # an overall indicator stays outside: (i*x)**q = i * x**q for q > 0
        inds = [(i, x) for i, x in e.m if ATOMS[i].kind == "ind"]
        if inds and q > 0:
            rest = E(e.c, tuple((i, x) for i, x in e.m if ATOMS[i].kind != "ind"))
            return mul2(E(F(1), tuple(inds)), rpow(rest, q))
        r = shannon([e], lambda x: rpow(x, q), strict=True)
        if r is not None:
            return r
    out = ONE
    c = e.c
    neg = c < 0
    for n, s in ((abs(c.numerator), 1), (c.denominator, -1)):
        if n != 1:
            if n > 10 ** 40:
                f = {n: 1}
            else:
                f = _prime_factors(n)
            for p, k in f.items():
                out = mul2(out, _norm(F(1), {_prime(p).id: q * k * s}))
    d = {}
    for i, x in e.m:
        a = ATOMS[i]
        if neg and a.kind == "sum" and x.denominator == 1 and x % 2 == 1:
            i = _intern("nsum", (i,), True, a.deps, a.has_ind).id
            neg = False
            a = ATOMS[i]
        if a.kind == "sum" and q.denominator == 2 and x.denominator == 1 and x % 2 and not a.pos:
            r = _square_root(i)
            if r is not None:
                out = mul2(out, rpow(r, 2 * x * q))
                continue
        if x.denominator == 1 and x % 2 == 0 and not a.pos and q.denominator % 2 == 0:
            # even root of an even power of something of unknown sign
            out = mul2(out, rpow(absval(atom_expr(a)), x * q))
            continue
        d[i] = d.get(i, F(0)) + x * q
    if neg:
        at = _intern("fn", ("powneg", e, E(q)), False, deps(e))
        return atom_expr(at)
    return mul2(out, _norm(F(1), d))


def _spow(base_id, m, q):
    """atom ** (q * monomial m)"""
    a = ATOMS[base_id]
    if not m:
        if a.kind == "num":
            return rpow(E(F(a.args[0])), q)
        if a.kind == "sym" and a.args[0] == "TEN":
            return rpow(E(F(10)), q)
        return rpow(atom_expr(a), q)
    if a.kind == "spow":
        p = mul2(E(F(1), a.args[1]), E(F(1), m))
        return _spow(a.args[0], p.m, q * p.c)
    if a.kind == "sym" and a.args[0] == "TEN":
        # 10 ** (q * log10(A) * m') = A ** (q * m')
        for i, x in m:
            b = ATOMS[i]
            if b.kind == "log10" and x == 1:
                rest = tuple((j, y) for j, y in m if j != i)
                return power(b.args[0], E(q, rest))
    if a.kind == "sym" and a.args[0] == "EULER":
        d = dict(m)
        if d.get(_LN10_ID) == 1:
            for i, x in m:
                b = ATOMS[i]
                if b.kind == "log10" and x == 1:
                    rest = tuple((j, y) for j, y in m if j not in (i, _LN10_ID))
                    return power(b.args[0], E(q, rest))
            rest = tuple((j, y) for j, y in m if j != _LN10_ID)
            return _spow(_TEN_ID, rest, q)
    at = _intern("spow", (base_id, m), True, a.deps | deps_m(m))
    return atom_expr(at, q)


_LN10_ID = LN10.m[0][0]
_TEN = _intern("sym", ("TEN",), True)
_TEN_ID = _TEN.id
_EULER = _intern("sym", ("EULER",), True)


def power(b, x):
    """b ** x"""
    cx = const(x)
    if cx is not None:
        return rpow(b, cx)
    if has_ind(x) or has_ind(b):
        if not has_ind(x):
            inds = [(i, q) for i, q in b.m if ATOMS[i].kind == "ind"]
            if inds:
                # support of the base: left outside only when shannon is not possible
                pass
        r = shannon([b, x], lambda p, q: power(p, q), strict=True)
        if r is not None:
            return r
    if not b.c:
        return ZERO
    if b.c == 1 and not b.m:
        return ONE
    out = ONE
    terms = as_terms(x)
    for m, q in terms.items():
        c = b.c
        if c < 0:
            at = _intern("fn", ("powneg", b, canon(x)), False, deps(b) | deps(x))
            return atom_expr(at)
        if c != 1:
            if not m:
                out = mul2(out, rpow(E(c), q))
            else:
                # ten and the primes other than five (5 = 10 / 2)
                fs = {}
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    if n != 1:
                        for p, k in _prime_factors(n).items():
                            fs[p] = fs.get(p, 0) + k * s
                n10 = fs.pop(5, 0)
                if n10:
                    out = mul2(out, _spow(_TEN_ID, m, q * n10))
                    fs[2] = fs.get(2, 0) - n10
                for p, k in fs.items():
                    if k:
                        out = mul2(out, _spow(_prime(p).id, m, q * k))
        for i, y in b.m:
            out = mul2(out, _spow(i, m, q * y))
    return out


def exp(x):
    if not x.c:
        return ONE
    if has_ind(x):
        r = shannon([x], exp, strict=True)
        if r is not None:
            return r
    out = ONE
    for m, q in as_terms(x).items():
        out = mul2(out, _spow(_EULER.id, m, q))
    return out


def log10(e):
    if not e.c:
        return mul2(MINUS1, INF)
    if has_ind(e):
        r = shannon([e], log10, strict=True)
        if r is not None:
            return r
    if e.c < 0:
        return fn("log10neg", e)
    out = []
    fs = {}
    for n, s in ((e.c.numerator, 1), (e.c.denominator, -1)):
        if n != 1:
            for p, k in _prime_factors(n).items():
                fs[p] = fs.get(p, 0) + k * s
    n5 = fs.pop(5, 0)
    if n5:
        out.append(E(F(n5)))
        fs[2] = fs.get(2, 0) - n5
    for p, k in fs.items():
        if k:
            at = _intern("log10", (E(F(p)),), False)
            out.append(atom_expr(at) * k)
    for i, q in e.m:
        a = ATOMS[i]
        if a.kind == "spow":
            out.append(mul2(E(q, a.args[1]), log10(atom_expr(ATOMS[a.args[0]]))))
        elif a.kind == "sym" and a.args[0] == "TEN":
            out.append(E(q))
        elif a.kind == "sym" and a.args[0] == "EULER":
            out.append(mul2(E(q), inv(LN10)))
        elif a.kind == "sum":
            # expanded argument, its content is 1 by construction
            at = _intern("log10", (atom_expr(a),), False, a.deps, a.has_ind)
            out.append(mul2(E(q), atom_expr(at)))
        else:
            at = _intern("log10", (atom_expr(a),), False, a.deps, a.has_ind)
            out.append(mul2(E(q), atom_expr(at)))
    return add(*out)


def ln(e):
    r = log10(e)
    if const(r) == 0:
        return ZERO
    return mul2(LN10, r)


# ------------------------------------------------------------ indicators
def ind_atoms(e, seen=None):
    """indicator atoms at the polynomial level of the expression"""
    out = set()
    for i, _ in e.m:
        a = ATOMS[i]
        if a.kind == "ind":
            out.add(i)
        elif a.kind in ("sum", "nsum", "abs") and a.has_ind:
            if a.kind == "sum":
                for m, c in a.args[0]:
                    out |= ind_atoms(E(c, m))
            elif a.kind == "nsum":
                out |= ind_atoms(atom_expr(ATOMS[a.args[0]]))
    return out


def set_ind(e, i, v):
    """replace the indicator atom i with 0 or 1 at the polynomial level"""
    if not e.c:
        return e
    out = E(e.c)
    for j, q in e.m:
        a = ATOMS[j]
        if j == i:
            if not v:
                return ZERO if q > 0 else INF
            continue
        if a.kind == "sum" and a.has_ind:
            s = add(*[set_ind(E(c, m), i, v) for m, c in a.args[0]])
            if not s.c and q < 0:
                return INF
            out = mul2(out, rpow(s, q))
        elif a.kind == "nsum" and a.has_ind:
            s = mul2(MINUS1, set_ind(atom_expr(ATOMS[a.args[0]]), i, v))
            out = mul2(out, rpow(s, q))
        else:
            out = mul2(out, E(F(1), ((j, q),)))
    return out


def shannon(args, f, strict=False, maxn=6):
    """f(args) with the indicators of the arguments brought outside"""
    inds = set()
    for a in args:
        inds |= ind_atoms(a)
    if not inds or len(inds) > maxn:
        return None
    i = min(inds)
    hi = [set_ind(a, i, True) for a in args]
    lo = [set_ind(a, i, False) for a in args]
    I = atom_expr(ATOMS[i])
    fh, fl = f(*hi), f(*lo)
    if fh == fl:
        return fh
    if mentions_inf(fh) or mentions_inf(fl):
        return None
    return add(mul2(I, fh), mul2(sub(ONE, I), fl))


_INF_ID = INF.m[0][0]


def mentions_inf(e):
    for i, q in e.m:
        a = ATOMS[i]
        if i == _INF_ID:
            return True
        if a.kind == "sum":
            for m, c in a.args[0]:
                if mentions_inf(E(c, m)):
                    return True
    return False


def _pi_sign(e):
    """sign of a polynomial in pi with rational coefficients (never zero)"""
    p = PI.m[0][0]
    lo, hi = F(314159265358979323846, 10**20), F(314159265358979323847, 10**20)
    for i, q in e.m:
        if i == p:
            continue
        a = ATOMS[i]
        if a.kind != "sum" or q.denominator != 1 or len(e.m) > 1:
            return None
        l = h = F(0)
        for m, c in a.args[0]:
            if len(m) > 1 or m and (m[0][0] != p or m[0][1].denominator != 1 or abs(m[0][1]) > 8):
                return None
            k = int(m[0][1]) if m else 0
            x, y = sorted((c * lo**k, c * hi**k))
            l += x
            h += y
        if l <= 0 <= h:
            return None
        s = 1 if l > 0 else -1
        return (s if q % 2 else 1) * (1 if e.c > 0 else -1)
    return None


def _number(e):
    """value of a constant made of pi and logarithms, or None"""
    import decimal
    D = decimal.Decimal
    v = D(e.c.numerator) / D(e.c.denominator)
    for i, q in e.m:
        a = ATOMS[i]
        if q.denominator != 1:
            return None
        if i == PI.m[0][0]:
            x = D("3.14159265358979323846264338327950288419716939937510582097")
        elif i == LN10.m[0][0]:
            x = D(10).ln()
        elif a.kind == "log10" and const(a.args[0]) is not None and const(a.args[0]) > 0:
            k = const(a.args[0])
            x = (D(k.numerator) / D(k.denominator)).log10()
        elif a.kind == "sum":
            x = D(0)
            for m, c in a.args[0]:
                y = _number(E(c, m))
                if y is None:
                    return None
                x += y
            if x == 0:
                return None
        else:
            return None
        v *= x ** int(q)
    return v


def _const_sign(e):
    """sign of a constant which is certainly not zero"""
    v = _pi_sign(e)
    if v is not None or not e.m or any(ATOMS[i].kind not in ("sym", "log10", "sum") for i, _ in e.m):
        return v
    import decimal
    with decimal.localcontext() as ctx:
        ctx.prec = 50
        v = _number(e)
    return None if v is None or abs(v) < decimal.Decimal("1e-30") else 1 if v > 0 else -1


def ge0(e):
    """indicator of e >= 0"""
    c = const(e)
    if c is not None:
        return ONE if c >= 0 else ZERO
    v = _const_sign(e)
    if v is not None:
        return ONE if v > 0 else ZERO
    if e.c and any(i == _INF_ID for i, _ in e.m) and len(e.m) == 1:
        return ONE if e.c > 0 else ZERO
    if has_ind(e):
        r = shannon([e], ge0)
        if r is not None:
            return r
    e = canon(e)
    c = const(e)
    if c is not None:
        return ONE if c >= 0 else ZERO
    sgn = 1 if e.c > 0 else -1
    d = {}
    for i, q in e.m:
        a = ATOMS[i]
        if a.pos:
            continue
        if q.denominator % 2 == 0:
            continue
        if a.kind == "sum" and q < 0 and q.denominator == 1:
            q = -q  # same sign
        if q.denominator == 1 and q % 2 == 1:
            q = F(1)
        d[i] = q
    if not d:
        return ONE if sgn > 0 else ZERO
    x = E(F(sgn), tuple((i, d[i]) for i in sorted(d)))
    # |x|/x**2: even powers are >= 0 anyway
    if all(q.denominator == 1 and q % 2 == 0 for q in d.values()):
        if sgn > 0:
            return ONE
    if len(d) == 1:
        (i, q), = d.items()
        a = ATOMS[i]
        if a.kind == "sum":
            items = a.args[0]
            # monotone simplification: A - B >= 0 with A = S**q etc. is left alone
            x = E(F(sgn), ((i, F(1)),))
        if a.kind == "log10":
            # sign of log10(y)
            pass
    # an inequality on sqrt: a - sqrt(b)... left as is
    comp = None
    key = x
    at = _intern("ind", ("ge0", key), True, deps(key))
    return atom_expr(at)


def eq0(e):
    c = const(e)
    if c is not None:
        return ONE if c == 0 else ZERO
    if has_ind(e):
        r = shannon([e], eq0)
        if r is not None:
            return r
    e = canon(e)
    if const(e) is not None:
        return eq0(e)
    if is_zero(e):
        return ONE
    if _const_sign(e) is not None:
        return ZERO
    if e.c and all(ATOMS[i].pos for i, _ in e.m):
        return ZERO
    d = {}
    for i, q in e.m:
        a = ATOMS[i]
        if a.pos or q < 0 or _positive_sum(a):
            continue
        d[i] = F(1)
    if not d:
        return ZERO
    x = E(F(1), tuple((i, d[i]) for i in sorted(d)))
    at = _intern("ind", ("eq0", x), True, deps(x))
    return atom_expr(at)


def _nonneg(a):
    return a.pos or a.kind == "red" and a.args[0] == "count" or a.kind == "sym" and a.args[0][:1] == ("idx",) or a.kind == "fn" and a.args[0] == "argsort" or \
        a.kind == "at" and _nonneg(ATOMS[a.args[0]])


def _positive_sum(a):
    """a positive constant and terms that are not negative"""
    if a.kind != "sum":
        return False
    t = dict((m, c) for m, c in a.args[0])
    return t.get((), 0) > 0 and all(c > 0 and all(q > 0 and _nonneg(ATOMS[i]) for i, q in m) for m, c in t.items())


def ind(name, *args):
    """opaque boolean"""
    dp = frozenset().union(*[deps(a) for a in args if isinstance(a, E)]) if args else frozenset()
    at = _intern("ind", (name,) + tuple(canon(a) if isinstance(a, E) else a for a in args), True, dp)
    return atom_expr(at)


def not_(e):
    return sub(ONE, e)


def where(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if a == b:
        return a
    n = not_(c)
    return add(mul2(c, under(a, c)), mul2(n, under(b, n)))


# ------------------------------------------------------------- functions
ODD = {"sin", "arctan", "sinh", "tanh", "sign", "arcsin", "erf"}
EVEN = {"cos", "cosh"}
POSFN = {"cosh", "max_pos", "zeta", "kv"}


def fn(name, *args, pos=False):
    """opaque application of a (pure, elementwise) function"""
    if name in ("min_of", "max_of"):
        return nary(name[:3], args)
    if any(isinstance(a, E) and has_ind(a) for a in args):
        es = [a for a in args if isinstance(a, E)]

        def rebuild(*vals):
            it = iter(vals)
            return fn(name, *[next(it) if isinstance(a, E) else a for a in args], pos=pos)

        r = shannon(es, rebuild, strict=True)
        if r is not None:
            return r
    args = tuple(canon(a) if isinstance(a, E) else a for a in args)
    if args and isinstance(args[0], E):
        x = args[0]
        if name == "sign":
            if not x.c:
                return ZERO
            if x.m and all(ATOMS[i].pos for i, _ in x.m) or not x.m:
                return ONE if x.c > 0 else MINUS1
            s = ONE if x.c > 0 else MINUS1
            d = {}
            for i, q in x.m:
                a = ATOMS[i]
                if a.pos or q.denominator != 1 or q % 2 == 0:
                    continue
                d[i] = F(1)
            y = E(F(1), tuple((i, d[i]) for i in sorted(d)))
            at = _intern("fn", ("sign", y), False, deps(y))
            return mul2(s, atom_expr(at))
        if name in ("cos", "sin"):
            v = _trig_const(name, x)
            if v is not None:
                return v
            if x.m and len(x.m) == 1 and x.c == 1 and x.m[0][1] == 1:
                a = ATOMS[x.m[0][0]]
                if a.kind == "fn" and a.args[0] == "arccos":
                    y = a.args[1]
                    if name == "cos":
                        return y
                    return rpow(sub(ONE, mul2(y, y)), F(1, 2))
                if a.kind == "fn" and a.args[0] == "arcsin":
                    y = a.args[1]
                    if name == "sin":
                        return y
                    return rpow(sub(ONE, mul2(y, y)), F(1, 2))
        if len(args) == 1 and name in ODD and x.c < 0:
            return mul2(MINUS1, fn(name, mul2(MINUS1, x), pos=pos))
        if len(args) == 1 and name in EVEN and x.c < 0:
            return fn(name, mul2(MINUS1, x), pos=pos)
        if name in ("sinh", "tanh", "arctan", "arcsin", "erf") and not x.c:
            return ZERO
    dp = frozenset().union(frozenset(), *[deps(a) for a in args if isinstance(a, E)])
    at = _intern("fn", (name,) + args, pos, dp)
    return atom_expr(at)


NARY = False  # keep minima and maxima of several values as such, instead of by cases


def nary(kind, xs):
    """the smallest or the largest of several values, whatever their order"""
    xs = [canon(x) for x in xs]
    name = kind + "_of"
    flat = set()
    for x in xs:
        a = ATOMS[x.m[0][0]] if x.c == 1 and len(x.m) == 1 and x.m[0][1] == 1 else None
        if a is not None and a.kind == "fn" and a.args[0] == name:
            flat |= set(a.args[1:])
        else:
            flat.add(x)
    top, bot = (INF, mul2(MINUS1, INF)) if kind == "min" else (mul2(MINUS1, INF), INF)
    if bot in flat:
        return bot
    flat.discard(top)
    if not flat:
        return top
    if len(flat) == 1:
        return flat.pop()
    args = sorted(flat, key=lambda e: (e.m, e.c))
    at = _intern("fn", (name,) + tuple(args), all(_is_pos(x) for x in args), frozenset().union(*[deps(x) for x in args]))
    return atom_expr(at)


def _trig_const(name, x):
    if not x.c:
        return ONE if name == "cos" else ZERO
    if x.m == PI.m:
        k = x.c * 2
        if k.denominator == 1:
            k = int(k) % 4
            tab = {"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[name]
            return E(F(tab[k]))
    return None


# ------------------------------------------------------------- integrals
def _split(m, dim):
    ind_, dep = [], []
    for i, q in m:
        (dep if dim in ATOMS[i].deps else ind_).append((i, q))
    return tuple(ind_), tuple(dep)


LINEAR = {"trapz", "simpson", "sum", "mean"}


def integral(kind, y, x, dim, grid_free=False):
    """integral over the index dim of y, sampled on the points x"""
    if not y.c:
        return ZERO
    x = canon(x) if x is not None else None
    fx = ONE
    if x is not None:
        mi, md = _split(x.m, dim)
        if not md:
            return ZERO  # no extent along that axis
        fx = E(x.c, mi)
        x = E(F(1), md)
    if kind in ("sum", "mean") and isinstance(dim, tuple) and dim[0] == "n" and dim[1] <= 12:
        r = add(*[at_index(y, dim, ("i", i)) for i in range(dim[1])])
        return r if kind == "sum" else mul2(r, E(F(1, dim[1])))
    if kind in LINEAR:
        try:
            terms = expand_terms(y, 400)
        except AlgebraLimit:
            terms = {y.m: y.c}
        out = []
        for m, c in terms.items():
            mi, md = _split(m, dim)
            if not md and kind == "mean":
                out.append(E(c, mi))
                continue
            body = E(F(1), md)
            dp = (deps(body) | (deps(x) if x is not None else frozenset())) - {dim}
            at = _intern("int", (kind, dim, body, x), _is_pos(body) and kind in ("sum", "mean"), dp)
            out.append(mul2(E(c, mi), atom_expr(at)))
        return mul2(fx, add(*out))
    y = canon(y)
    mi, md = _split(y.m, dim)
    # indicators that do not depend on the axis may be pulled out as well
    body = E(F(1), md)
    dp = (deps(body) | (deps(x) if x is not None else frozenset())) - {dim}
    at = _intern("int", (kind, dim, body, x), False, dp)
    return mul(fx, E(y.c, mi), atom_expr(at))


def reduce_(kind, y, dim):
    """max, min, argmax, any, ... along an axis"""
    y = canon(y)
    if kind in ("max", "min"):
        mi, md = _split(y.m, dim)
        f = E(y.c, mi)
        if _is_pos(f):
            if not md:
                return f
            body = E(F(1), md)
            at = _intern("red", (kind, dim, body), _is_pos(body), deps(body) - {dim})
            return mul2(f, atom_expr(at))
    if dim not in deps(y) and kind in ("max", "min", "any", "all", "first", "last"):
        return y
    if kind == "any" and y.c == 1 and len(y.m) == 1 and ATOMS[y.m[0][0]].kind == "ind" and ATOMS[y.m[0][0]].args[:2] == ("isidx", dim) and not isinstance(ATOMS[y.m[0][0]].args[2], E):
        return ONE
    if kind in ("any", "all"):
        at = _intern("ind", ("red_" + kind, dim, y), True, deps(y) - {dim})
        return atom_expr(at)
    if kind in ("argmax", "argmin"):
        mi, md = _split(y.m, dim)
        f = E(y.c, mi)
        if _is_pos(f):
            y = E(F(1), md)
    at = _intern("red", (kind, dim, y), False, deps(y) - {dim})
    return atom_expr(at)


# ---------------------------------------------------------- substitution
def map_atoms(e, f, memo):
    """rebuild the expression, f(atom) -> E or None (recurse)"""
    if not e.m:
        return e
    key = e
    r = memo.get(key)
    if r is not None:
        return r
    out = E(e.c)
    for i, q in e.m:
        out = mul2(out, rpow(map_atom(ATOMS[i], f, memo), q)) if q != 1 else \
            mul2(out, map_atom(ATOMS[i], f, memo))
    memo[key] = out
    return out


def map_atom(a, f, memo):
    key = ("a", a.id)
    r = memo.get(key)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        r = _rebuild(a, f, memo)
    memo[key] = r
    return r


def _rebuild(a, f, memo):
    k = a.kind
    rec = lambda e: map_atoms(e, f, memo)
    if k in ("sym", "num", "t"):
        return atom_expr(a)
    if k == "sum":
        return add(*[rec(E(c, m)) for m, c in a.args[0]])
    if k == "nsum":
        return mul2(MINUS1, map_atom(ATOMS[a.args[0]], f, memo))
    if k == "spow":
        return power(map_atom(ATOMS[a.args[0]], f, memo), rec(E(F(1), a.args[1])))
    if k == "abs":
        return absval(rec(a.args[0]))
    if k == "log10":
        return log10(rec(a.args[0]))
    if k == "ind":
        if a.args[0] == "ge0":
            return ge0(rec(a.args[1]))
        if a.args[0] == "eq0":
            return eq0(rec(a.args[1]))
        args = tuple(rec(x) if isinstance(x, E) else x for x in a.args)
        if args == a.args:
            return atom_expr(a)
        if a.args[0] in ("red_any", "red_all"):
            return reduce_(a.args[0][4:], args[2], a.args[1])
        return ind(*args)
    if k == "fn":
        args = tuple(rec(x) if isinstance(x, E) else x for x in a.args[1:])
        if args == a.args[1:]:
            return atom_expr(a)
        if a.args[0] == "ipow":
            return rpow(args[0], const(args[1]))
        if a.args[0] == "powneg":
            return power(args[0], args[1])
        if a.args[0] == "vec":
            return vec(args[0], args[1:])
        if a.args[0] == "idx":
            return _intern_fn(("idx",) + args)
        if a.args[0] == "opq":
            return opaque(args[0])
        if a.args[0] in AXISFN:
            return axisfn(a.args[0], *args)
        return fn(a.args[0], *args, pos=a.pos)
    if k == "int":
        kind, dim, y, x = a.args
        if rec(y) == y and (x is None or rec(x) == x):
            return atom_expr(a)
        return integral(kind, rec(y), rec(x) if x is not None else None, dim)
    if k == "red":
        args = tuple(rec(x) if isinstance(x, E) else x for x in a.args)
        if args == a.args:
            return atom_expr(a)
        if len(a.args) > 3 or a.args[0].startswith("masked_"):
            es = [x for x in args if isinstance(x, E)]
            return atom_expr(_intern("red", args, a.pos, frozenset().union(*[deps(x) for x in es]) - {a.args[1]}))
        return reduce_(a.args[0], args[2], a.args[1])
    if k == "at":
        base, dim, how = a.args
        b = map_atom(ATOMS[base], f, memo)
        return at_index(b, dim, how)
    raise AssertionError(k)


def _intern_fn(args):
    dp = frozenset().union(frozenset(), *[deps(a) for a in args if isinstance(a, E)])
    return atom_expr(_intern("fn", args, False, dp))


def subst(e, mapping):
    """replace atoms (given as single-atom expressions) with expressions"""
    tab = {}
    for k, v in mapping.items():
        assert len(k.m) == 1 and k.c == 1 and k.m[0][1] == 1, k
        tab[k.m[0][0]] = lift(v)
    return map_atoms(e, lambda a: tab.get(a.id), {})


def _dropped(d):
    return d[2] if isinstance(d, tuple) and d[0] == "less" else 0


def at_index(e, dim, how):
    """value of e at a given index of dim; how = ("i", n) | ("dim", newdim, tag)

    ("i", n): element n.  ("dim", newdim, tag): re-indexed along another dim
    (slice, mask, permutation)."""

    def f(a):
        if dim not in a.deps:
            return atom_expr(a)
        if a.kind == "t":
            if how[0] == "i":
                if how[1] == 0:
                    return ZERO
                if how[1] == -1:
                    return ONE
            newdeps = (a.deps - {dim}) | (frozenset([how[1]]) if how[0] == "dim" else frozenset())
            if how[0] == "dim" and how[2] == "renamed":
                return tvar(how[1])
            return atom_expr(_intern("at", (a.id, dim, how), True, newdeps))
        if a.kind == "at" and a.args[2][0] == "dim" and a.args[2][1] == dim and a.args[2][2] == "renamed":
            return at_index(atom_expr(ATOMS[a.args[0]]), a.args[1], how)
        if a.kind == "at" and a.args[2][0] == "dim" and a.args[2][1] == dim and a.args[2][2] == "off":
            # element of a contiguous slice
            b, d0, off = a.args[0], a.args[1], a.args[2][3]
            x = None
            if how[0] == "i" and isinstance(how[1], int):
                i = how[1] + off if how[1] >= 0 else how[1] - (_dropped(dim) - _dropped(d0) - off)
                x = ("i", i)
            elif how[0] == "dim" and how[2] == "off":
                x = ("dim", how[1], "off", off + how[3])
                if how[1] == d0 and off + how[3] == 0:
                    return atom_expr(ATOMS[b])
            if x is not None:
                return at_index(atom_expr(ATOMS[b]), d0, x)
        if a.kind == "sym" or a.kind == "at":
            newdeps = (a.deps - {dim}) | (frozenset([how[1]]) if how[0] == "dim" else frozenset())
            return atom_expr(_intern("at", (a.id, dim, how), a.pos, newdeps))
        if a.kind == "fn" and a.args[0] == "vec" and a.args[1] == dim:
            if how[0] == "i":
                n = how[1]
                items = a.args[2:]
                if -len(items) <= n < len(items):
                    return items[n]
            elif how[2] == "renamed":
                return vec(how[1], a.args[2:])
            newdeps = (a.deps - {dim}) | (frozenset([how[1]]) if how[0] == "dim" else frozenset())
            return atom_expr(_intern("at", (a.id, dim, how), a.pos, newdeps))
        if a.kind == "ind" and a.args[0] == "isidx" and a.args[1] == dim:
            if how[0] == "i":
                return ONE if a.args[2] == how[1] else ZERO
            if how[2] == "renamed":
                return isidx(how[1], a.args[2])
            newdeps = (a.deps - {dim}) | (frozenset([how[1]]) if how[0] == "dim" else frozenset())
            return atom_expr(_intern("at", (a.id, dim, how), True, newdeps))
        if a.kind == "red" or a.kind == "int":
            # dim is free in there (bound ones are not in deps)
            return None
        if a.kind == "fn" and (a.args[0] in AXISFN or a.args[0] == "concat"):
            newdeps = (a.deps - {dim}) | (frozenset([how[1]]) if how[0] == "dim" else frozenset())
            return atom_expr(_intern("at", (a.id, dim, how), a.pos, newdeps))
        return None

    return map_atoms(e, f, {})


def opaque(e):
    """a single atom for a gated value that is not to be distributed"""
    if not ind_atoms(e):
        return e
    e = canon(e)
    t = as_terms(e)
    pos = all(c > 0 and all(ATOMS[i].pos for i, _ in m) for m, c in t.items()) and any(
        all(ATOMS[i].kind != "ind" for i, _ in m) for m in t)
    return atom_expr(_intern("fn", ("opq", e), pos, deps(e)))


def axisfn(name, dim, y):
    """function acting along a whole axis, with values on the same axis"""
    y = canon(y)
    mi, md = _split(y.m, dim)
    if not md:
        return y
    f = E(y.c, mi)
    if name == "sorted" and not _is_pos(f):
        f, md = ONE, y.m
        body = y
    else:
        body = E(F(1), md)
    return mul2(f, atom_expr(_intern("fn", (name, dim, body), _is_pos(body), deps(body) | frozenset([dim]))))


def assume(e, cond, val):
    """e under the hypothesis that the indicator cond (a single atom) is val"""
    (i, q), = cond.m
    assert ATOMS[i].kind == "ind" and cond.c == 1
    v = ONE if val else ZERO
    return canon(map_atoms(e, lambda a: v if a.id == i else None, {}))


def literals(cond):
    """indicators fixed where the product cond is one: [(atom, value)]"""
    out = []
    for i, q in cond.m:
        a = ATOMS[i]
        if a.kind == "ind":
            out.append((i, True))
        elif a.kind == "sum" and len(a.args[0]) == 2:
            (m1, c1), (m2, c2) = a.args[0]
            if c1 == -c2 and () in (m1, m2):
                m = m1 or m2
                if len(m) == 1 and ATOMS[m[0][0]].kind == "ind":
                    out.append((m[0][0], False))
    return out


def under(e, cond):
    """e where cond is one; only logarithms of quantities switched off by an indicator
    and positions in a concatenation matter"""
    if any(ATOMS[i].args[0] == "isidx" and isinstance(ATOMS[i].args[1], tuple) and ATOMS[i].args[1][0] == "cat" for i in ind_atoms(cond)):
        for i, v in literals(canon(cond)):
            i = i if isinstance(i, int) else i.id
            if ATOMS[i].args[0] == "isidx":
                e = set_ind(e, i, v)
    if not any(ATOMS[i].kind == "log10" and has_ind(ATOMS[i].args[0]) for i in all_atoms(e)):
        return e
    lit = dict(literals(canon(cond)))
    if not lit:
        return e
    return canon(map_atoms(e, lambda a: (ONE if lit[a.id] else ZERO) if a.id in lit else None, {}))


def vec(dim, items):
    """explicit sequence of values along dim"""
    items = tuple(canon(x) for x in items)
    if items and all(x == items[0] for x in items):
        return items[0]
    dp = frozenset([dim]).union(*[deps(x) for x in items])
    hi = any(has_ind(x) for x in items)
    return atom_expr(_intern("fn", ("vec", dim) + items, all(_is_pos(x) for x in items), dp, False))


def order(dim, y):
    """positions of the elements in increasing order"""
    y = canon(y)
    mi, md = _split(y.m, dim)
    f, body = E(y.c, mi), E(F(1), md)
    if not _is_pos(f):
        body = y
    return atom_expr(_intern("fn", ("argsort", dim, body), False, deps(body) | frozenset([dim])))


def count(dim, w):
    """number of elements for which the condition holds"""
    w = canon(w)
    if w == ZERO:
        return ZERO
    if w == ONE:
        return sym(("len", dim), True)
    return atom_expr(_intern("red", ("count", dim, w), False, deps(w) - {dim}))


def take(e, dim, new, k):
    """elements of e at the positions k (along the axis new)"""
    k = canon(k)
    for i in ind_atoms(k):
        if ATOMS[i].args[0] == "isidx" and ATOMS[i].args[1] == new:
            c = atom_expr(ATOMS[i])
            return where(c, take(e, dim, new, set_ind(k, i, True)), take(e, dim, new, set_ind(k, i, False)))
    c = const(k)
    if c is not None and c.denominator == 1:
        return at_index(e, dim, ("i", int(c)))
    if k.c == 1 and len(k.m) == 1 and k.m[0][1] == 1:
        a = ATOMS[k.m[0][0]]
        if a.kind == "at" and a.args[1] == dim and ATOMS[a.args[0]].kind == "sym" and ATOMS[a.args[0]].args[0] == ("idx", dim):
            return at_index(e, dim, a.args[2])
    if new == dim and k.c == 1 and len(k.m) == 1 and k.m[0][1] == 1:
        a = ATOMS[k.m[0][0]]
        if a.kind == "sym" and a.args and a.args[0] == ("idx", dim):
            return e
    return at_index(e, dim, ("dim", new, "take", k))


def isidx(dim, i):
    return atom_expr(_intern("ind", ("isidx", dim, i), True, frozenset([dim])))


# functions that act along a whole axis (not elementwise)
AXISFN = {"argsort", "sorted", "gradient", "cumsum", "arange", "diff", "digitize", "spline", "interp", "random"}


# ------------------------------------------------------- differentiation
def diff(e, x):
    """derivative with respect to a single-atom expression (indicators have
    derivative zero: boundaries are handled by the caller)"""
    xid = x.m[0][0]
    memo = {}

    def da(a):
        if a.id in memo:
            return memo[a.id]
        r = _da(a)
        memo[a.id] = r
        return r

    def dE(e):
        out = []
        for n, (i, q) in enumerate(e.m):
            d = da(ATOMS[i])
            if not d.c:
                continue
            if ATOMS[i].kind == "ind":
                continue
            out.append(mul(E(e.c * q), E(F(1), e.m[:n] + e.m[n + 1:]),
                           rpow(atom_expr(ATOMS[i]), q - 1), d))
        return add(*out)

    def _da(a):
        if a.id == xid:
            return ONE
        k = a.kind
        if k in ("sym", "num", "t", "ind"):
            return ZERO
        if k == "sum":
            return add(*[dE(E(c, m)) for m, c in a.args[0]])
        if k == "nsum":
            return mul2(MINUS1, da(ATOMS[a.args[0]]))
        if k == "spow":
            b = ATOMS[a.args[0]]
            m = E(F(1), a.args[1])
            db, dm = da(b), dE(m)
            out = []
            if db.c:
                out.append(mul(atom_expr(a), m, inv(atom_expr(b)), db))
            if dm.c:
                out.append(mul(atom_expr(a), ln(atom_expr(b)), dm))
            return add(*out)
        if k == "log10":
            d = dE(a.args[0])
            return mul(d, inv(a.args[0]), inv(LN10)) if d.c else ZERO
        if k == "abs":
            d = dE(a.args[0])
            return mul(fn("sign", a.args[0]), d) if d.c else ZERO
        if k == "fn":
            ds = [dE(y) if isinstance(y, E) else ZERO for y in a.args[1:]]
            if not any(d.c for d in ds):
                return ZERO
            nm = a.args[0]
            y = a.args[1]
            if nm == "sin":
                return mul(fn("cos", y), ds[0])
            if nm == "cos":
                return mul(MINUS1, fn("sin", y), ds[0])
            if nm.startswith("interp_") and not ds[0].c and not ds[1].c:
                base, k = nm.rsplit("_", 1)
                return mul(fn("%s_%d" % (base, int(k) + 1), *a.args[1:]), ds[2])
            return add(*[mul(fn("d%d_%s" % (n, nm), *a.args[1:]), d)
                         for n, d in enumerate(ds) if d.c])
        seen = set()
        _atoms_rec(a.id, seen)
        if xid not in seen:
            return ZERO
        raise AlgebraLimit("derivative of " + k)

    return dE(e)


# ----------------------------------------------------------------- sets
def all_atoms(e, seen=None):
    """ids of all the atoms on which e depends, transitively"""
    if seen is None:
        seen = set()
    for i, _ in e.m:
        _atoms_rec(i, seen)
    return seen


def _atoms_rec(i, seen):
    if i in seen:
        return
    seen.add(i)
    a = ATOMS[i]
    k = a.kind
    if k == "sum":
        for m, c in a.args[0]:
            for j, _ in m:
                _atoms_rec(j, seen)
    elif k == "spow":
        _atoms_rec(a.args[0], seen)
        for j, _ in a.args[1]:
            _atoms_rec(j, seen)
    elif k in ("nsum", "at"):
        _atoms_rec(a.args[0], seen)
        if k == "at":
            _how_atoms(a.args[2], seen)
            _how_atoms(a.args[1], seen)
    else:
        for x in a.args:
            if isinstance(x, E):
                all_atoms(x, seen)
            elif isinstance(x, tuple):
                _how_atoms(x, seen)


def _how_atoms(x, seen):
    if isinstance(x, E):
        all_atoms(x, seen)
    elif isinstance(x, tuple):
        for y in x:
            _how_atoms(y, seen)


def symbols(e):
    return {ATOMS[i].args[0] for i in all_atoms(e) if ATOMS[i].kind == "sym"}


# ------------------------------------------------------------- printing
def show_atom(a, depth=4):
    k = a.kind
    if depth < 0:
        return "…"
    if k == "sym":
        return str(a.args[0])
    if k == "num":
        return str(a.args[0])
    if k == "t":
        return f"t[{showdim(a.args[0])}]"
    if k == "sum":
        items = [show(E(c, m), depth - 1) for m, c in a.args[0]]
        if len(items) > 8:
            items = items[:8] + [f"...{len(items) - 8} more"]
        return "(" + " + ".join(items) + ")"
    if k == "nsum":
        return "-" + show_atom(ATOMS[a.args[0]], depth)
    if k == "spow":
        return show_atom(ATOMS[a.args[0]], depth - 1) + "^{" + show(E(F(1), a.args[1]), depth - 1) + "}"
    if k == "abs":
        return "|" + show(a.args[0], depth - 1) + "|"
    if k == "ind":
        return "[" + a.args[0] + " " + " ".join(show(x, depth - 1) if isinstance(x, E) else str(x) for x in a.args[1:]) + "]"
    if k == "log10":
        return "log10(" + show(a.args[0], depth - 1) + ")"
    if k == "fn":
        return a.args[0] + "(" + ", ".join(show(x, depth - 1) if isinstance(x, E) else str(x) for x in a.args[1:]) + ")"
    if k == "int":
        return f"Int_{a.args[0]}[{showdim(a.args[1])}]{{{show(a.args[2], depth - 1)} d {show(a.args[3], depth - 1) if a.args[3] is not None else '-'}}}"
    if k == "red":
        return f"{a.args[0]}[{showdim(a.args[1])}]({show(a.args[2], depth - 1)})"
    if k == "at":
        h = a.args[2]
        return show_atom(ATOMS[a.args[0]], depth - 1) + "@" + (str(h[1]) if h[0] == "i" else "~" + str(h[-1])[:30])
    return k


def showdim(d):
    s = str(d[1] if isinstance(d, tuple) and len(d) > 1 else d)
    return s[:24]


def show(e, depth=4):
    if e is None:
        return "None"
    if not e.m:
        return str(e.c)
    out = []
    if e.c != 1:
        out.append(str(e.c) if e.c != -1 else "-")
    for i, q in e.m:
        s = show_atom(ATOMS[i], depth)
        out.append(s if q == 1 else f"{s}^{q}")
    return "*".join(out)
