"""Random interpretation of value graphs.

Two graphs that are equal as functions of their atoms take the same value under every
interpretation of the atoms.  Comparing them under a few random interpretations (inputs
drawn at random with their known sign, axes of two points, functions without known
axioms replaced by random functions) separates most different graphs before the much
more expensive multiplication of their normal forms.  Agreement proves nothing here and
is left to :func:`algebra.equal`.
"""
import decimal
import time
import hashlib
from decimal import Decimal as D
from fractions import Fraction as F
from . import algebra as al

CTX = decimal.Context(prec=34, Emax=999999999999999999, Emin=-999999999999999999, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
S = 3
POINTS = 3
PI = D("3.14159265358979323846264338327950288419716939937510582097494")
LN10 = D("2.30258509299404568401799145468436420760110148862877297603333")
EULER = D("2.71828182845904523536028747135266249775724709369995957496697")


# where the formulas are defined: inside the kinematic and geometric limits
RANGES = [(a, D(b), D(c)) for a, b, c in (
    ("Gamma", "5", "20"), ("delta_D", "5", "9"), ("R_in", "1e14", "3e14"), ("R_out", "1e16", "3e16"), ("R_b", "1e15", "1e17"), ("R_", "1e16", "1e18"),
    ("R", "1e16", "1e18"), ("r", "1e17", "1e18"), ("d_L", "1e26", "1e28"), ("mu", "0.2", "0.95"), ("M_BH", "1e41", "1e42"), ("m_dot", "1e24", "1e27"), ("eta", "0.05", "0.4"), ("L", "1e44", "1e46"), ("T_", "500", "2000"),
    ("gamma_min", "1", "90"), ("gamma_max", "1e6", "1e7"), ("gamma", "1e3", "1e5"), ("nu_abs", "1e26", "1e31"), ("nu", "1e12", "1e22"), ("z", "0.01", "1"), ("epsilon", "1e-6", "1e-4"),
    ("B", "0.01", "10"), ("k", "0.1", "1000"), ("t_", "100", "1e5"), ("E", "1e-14", "1e-6"))]
VALUES = {n: D(v) for n, v in dict(
    c="299792458", m_e="9.1093837015e-31", m_p="1.67262192369e-27", m_n="1.67492749804e-27", h="6.62607015e-34", G="6.6743e-11", k_B="1.380649e-23",
    sigma_T="6.6524587321e-29", sigma_sb="5.670374419e-8", M_sun="1.98840987e30", e="4.8032045e-10", e_SI="1.602176634e-19", mu0="1.25663706212e-6",
    eps0="8.8541878128e-12", L_sun="3.828e26", R_sun="6.957e8", a0="5.29177210903e-11", alpha="0.0072973525693").items()}


class Bad(Exception):
    """outside the domain (root of a negative number, division by zero, infinity)"""


class Domain(Bad):
    """root or logarithm of a negative number, division by zero"""


class TooLong(Exception):
    pass


class J(decimal.Decimal):
    """a sum all of whose terms have one root of a negative number: real in the whole expression,
    where it comes with another one"""


def h(*key):
    """random number in (0, 1) attached to a key"""
    d = hashlib.sha256(repr(key).encode()).digest()
    return D(int.from_bytes(d[:16], "big")) / D(1 << 128)


def dsin(x):
    with decimal.localcontext(CTX) as c:
        x = c.remainder_near(x, 2 * PI)
        t, s, n, x2 = x, x, 1, x * x
        while abs(t) > D("1e-40"):
            n += 2
            t = -t * x2 / (n * (n - 1))
            s += t
        return s


def dec(q):
    return D(q.numerator) / D(q.denominator)


class Point:
    def __init__(self, seed, budget=400000):
        self.seed, self.memo, self.budget = seed, {}, budget
        self.pows = {}
        self.override = []
        self.sizes = {}

    def size(self, dim):
        if isinstance(dim, tuple) and len(dim) == 2 and dim[0] == "n" and isinstance(dim[1], int) and dim[1] <= 12:
            return dim[1]
        if isinstance(dim, tuple) and dim[:1] == ("cat",) and len(dim) == 4 and isinstance(dim[1], int) and isinstance(dim[3], int):
            return dim[1] + self.size(dim[2]) + dim[3]
        if isinstance(dim, tuple) and dim[:1] == ("less",):
            return max(1, self.size(dim[1]) - dim[2])
        if isinstance(dim, tuple) and dim[:1] == ("lin",):
            # grids with different numbers of points differ
            n = self.sizes.get(dim[1])
            if n is None:
                n = self.sizes[dim[1]] = S + int(h(self.seed, "length", str(dim[1])) * 2)
            return n
        return S

    # ------------------------------------------------------------ expressions
    def E(self, e, env):
        v, j = self.graded(e, env)
        if j:
            raise Domain()
        return v

    def graded(self, e, env):
        """(value, 1 if times the root of -1)"""
        if not e.c:
            return D(0), 0
        v = dec(e.c)
        # indicators first: nothing else needs to be defined where they vanish
        ms = e.m
        rest = []
        for i, q in ms:
            if al.ATOMS[i].kind == "ind":
                x = self.atom(i, env)
                if x == 0:
                    if q < 0:
                        raise Bad()
                    return D(0), 0
            else:
                rest.append((i, q))
        neg, grade = {}, 0
        for i, q in rest:
            x = self.atom(i, env)
            if isinstance(x, J):
                if q.denominator != 1:
                    raise Domain()
                grade += int(q)
                v = v * self.pw(D(x), q)
            elif q.denominator % 2:
                v = v * (self.atom(i, env) if q == 1 else self.apw(i, q, env))
            else:
                if x < 0:
                    # the root of a product of two negative factors
                    neg[q.denominator] = neg.get(q.denominator, 0) + 1
                    v = v * self.pw(-x, q)
                else:
                    v = v * self.apw(i, q, env)
            if v == 0:
                return v, 0
        grade += neg.pop(2, 0)
        if any(n % 2 for n in neg.values()):
            raise Domain()
        return v, grade % 2

    def apw(self, i, q, env):
        x = self.atom(i, env)
        key = (x, q)
        r = self.pows.get(key)
        if r is None:
            r = self.pows[key] = self.pw(x, q)
        return r

    def pw(self, x, q):
        if q == 1:
            return x
        if q.denominator == 1:
            n = int(q)
            if x == 0:
                if n < 0:
                    raise Domain()
                return x
            if x.is_infinite():
                return D(0) if n < 0 else CTX.power(x, n)
            return CTX.power(x, n)
        if x < 0:
            if q.denominator % 2:
                s = -1 if q.numerator % 2 else 1
                return s * CTX.power(-x, dec(q))
            raise Domain()
        if x == 0:
            # the base of a root is not negative
            return D("Infinity") if q < 0 else x
        if x.is_infinite():
            return D(0) if q < 0 else x
        if q.denominator in (2, 4):
            x = CTX.sqrt(x)
            if q.denominator == 4:
                x = CTX.sqrt(x)
            return CTX.power(x, q.numerator)
        return CTX.power(x, dec(q))

    # ------------------------------------------------------------ atoms
    def atom(self, i, env):
        a = al.ATOMS[i]
        try:
            key = (i, tuple(sorted(((str(d), env[d]) for d in a.deps)))) if a.deps else i
        except KeyError:
            raise Bad()
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise TooLong()
            try:
                r = self.calc(a, env)
            except Bad as x:
                self.memo[key] = x
                raise
            self.memo[key] = r
        elif isinstance(r, Bad):
            raise r
        return r

    def all_values(self, e, env, bound=()):
        """values over the axes not fixed by env, rounded (key of a random function)"""
        free = sorted((d for d in al.deps(e) if d not in env or d in bound), key=str)
        out = []

        def rec(k, en):
            if k == len(free):
                out.append(self.round(self.E(e, en)))
                return
            for j in range(self.size(free[k])):
                e2 = dict(en)
                e2[free[k]] = j
                rec(k + 1, e2)

        rec(0, env)
        return tuple(out)

    def round(self, v):
        return str(CTX.create_decimal(v).normalize(decimal.Context(prec=20)))

    def arg(self, x, env, bound=()):
        if isinstance(x, al.E):
            return self.all_values(x, env, bound)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env, bound) for y in x)
        return repr(x) if not isinstance(x, (str, int, F)) else x

    def calc(self, a, env):
        k = a.kind
        if k == "sym":
            n = a.args[0]
            if n == "pi":
                return PI
            if n == "ln10":
                return LN10
            if n == "TEN":
                return D(10)
            if n == "EULER":
                return EULER
            if n == "inf" and al.NARY:
                return D(10) ** 60
            if n in ("inf", "nan"):
                raise Bad()
            if n in VALUES:
                return VALUES[n]
            if isinstance(n, tuple) and n[0] == "idx" and n[1] in env:
                return D(env[n[1]])
            for o, at, v in self.override:
                if o is a and all(env[d] == i for d, i in at.items() if d in a.deps):
                    return v
            r = h(self.seed, str(n), tuple(sorted((str(d), env[d]) for d in a.deps)))
            s = str(n)
            s = s[4:] if s.startswith("new_") else s
            if s.startswith("log10_"):
                for pre, lo, hi in RANGES:
                    if s[6:].startswith(pre):
                        return CTX.log10(lo * CTX.power(hi / lo, r))
            if a.pos:
                for pre, lo, hi in RANGES:
                    if s.startswith(pre):
                        return lo * CTX.power(hi / lo, r)
                return D("0.2") + 4 * r
            return (r - D("0.5")) * D("1.9")
        if k == "num":
            return D(a.args[0])
        if k == "t":
            return D(env[a.args[0]]) / (self.size(a.args[0]) - 1)
        if k == "sum":
            gs = [self.graded(al.E(c, m), env) for m, c in a.args[0]]
            v = sum((x for x, _ in gs), D(0))
            js = {j for x, j in gs if x}
            if js == {1}:
                return J(v)
            if js == {0, 1}:
                raise Domain()
            return v
        if k == "nsum":
            v = self.atom(a.args[0], env)
            return J(-v) if isinstance(v, J) else -v
        if k == "abs":
            return abs(self.E(a.args[0], env))
        if k == "log10":
            # (the root of -1 in the logarithms of two factors whose ratio is real)
            x, _ = self.graded(a.args[0], env)
            if x <= 0:
                raise Domain()
            return CTX.log10(x)
        if k == "spow":
            b = self.atom(a.args[0], env)
            if b <= 0 or isinstance(b, J):
                raise Bad()
            x = self.E(al.E(F(1), a.args[1]), env)
            if x.is_infinite() and b > 1:
                return D("Infinity") if x > 0 else D(0)
            if abs(x) > 4 * 10 ** 17:
                if b <= 1:
                    raise Bad()
                return D("Infinity") if x > 0 else D(0)
            return CTX.power(b, x)
        if k == "ind":
            return self.ind(a, env)
        if k == "fn":
            return self.fn(a, env)
        if k == "int":
            return self.integral(a, env)
        if k == "red":
            return self.red(a, env)
        if k == "at":
            return self.at(a, env)
        raise Bad()

    def ind(self, a, env):
        n = a.args[0]
        if n in ("ge0", "eq0"):
            x = self.E(a.args[1], env)
            if x and self.vanishes(a.args[1], env):
                x = D(0)
            return D(int(x >= 0)) if n == "ge0" else D(int(x == 0))
        if n == "isidx":
            d, i = a.args[1], a.args[2]
            if isinstance(i, al.E):
                c = al.const(i)
                if c is None:
                    return D(int(h(self.seed, "isidx", self.arg(i, env), env[d]) < D("0.4")))
                i = int(c)
            return D(int(env[d] == i % self.size(d)))
        if n in ("red_any", "red_all"):
            d = a.args[1]
            vs = [self.E(a.args[2], dict(env, **{}) | {d: j}) for j in range(self.size(d))]
            return D(int((any if n == "red_any" else all)(v != 0 for v in vs)))
        return D(int(h(self.seed, n, self.arg(a.args[1:], env), tuple(sorted((str(d), env[d]) for d in a.deps))) < D("0.5")))

    def vanishes(self, e, env):
        """a factor is a sum whose terms cancel up to rounding"""
        for i, q in e.m:
            a = al.ATOMS[i]
            if q > 0 and a.kind == "nsum":
                a = al.ATOMS[a.args[0]]
            if q > 0 and a.kind == "sum":
                v = [self.E(al.E(c, m), env) for m, c in a.args[0]]
                if abs(sum(v, D(0))) <= D("1e-26") * sum((abs(x) for x in v), D(0)):
                    return True
        return False

    def fn(self, a, env):
        n = a.args[0]
        if n in ("sin", "cos"):
            x = self.E(a.args[1], env)
            return dsin(x if n == "sin" else x + PI / 2)
        if n == "ipow":
            return self.pw(self.E(a.args[1], env), al.const(a.args[2]))
        if n == "powneg":
            raise Bad()
        if n == "opq":
            return self.E(a.args[1], env)
        if n in ("min_of", "max_of"):
            return (min if n == "min_of" else max)(self.E(x, env) for x in a.args[1:])
        if n == "sign":
            x = self.E(a.args[1], env)
            return D(0) if x == 0 else D(1) if x > 0 else D(-1)
        if n == "vec":
            items = a.args[2:]
            j = env[a.args[1]]
            return self.E(items[j % len(items)], env)
        if n == "argsort":
            d = a.args[1]
            vs = [self.E(a.args[2], env | {d: j}) for j in range(self.size(d))]
            return D(sorted(range(len(vs)), key=lambda j: vs[j])[env[d]])
        if n in al.AXISFN:
            # acts along the whole axis
            d = a.args[1]
            en = {x: v for x, v in env.items() if x != d}
            key = tuple(self.arg(x, en, (d,)) if isinstance(x, al.E) else str(x) for x in a.args)
            r = h(self.seed, "axis", key, env[d])
        else:
            r = h(self.seed, "fn", self.arg(a.args, env), tuple(sorted((str(d), env[d]) for d in a.deps if n == "concat")))
        return D("0.3") + 2 * r if a.pos else (r - D("0.5")) * D("1.9")

    def integral(self, a, env):
        kind, d, y, x = a.args
        n = self.size(d)
        ys = [self.E(y, env | {d: j}) for j in range(n)]
        if kind == "sum":
            return sum(ys, D(0))
        if kind == "mean":
            return sum(ys, D(0)) / n
        xs = [self.E(x, env | {d: j}) for j in range(n)] if x is not None else [D(j) for j in range(n)]
        if kind == "trapz":
            return sum(((ys[j] + ys[j + 1]) * (xs[j + 1] - xs[j]) for j in range(n - 1)), D(0)) / 2
        # an unknown functional, homogeneous in both arguments
        w = [h(self.seed, str(kind), j) for j in range(2 * n)]
        return sum((w[j] * ys[j] for j in range(n)), D(0)) * sum((w[n + j] * xs[j] for j in range(n)), D(0))

    def red(self, a, env):
        kind, d = a.args[0], a.args[1]
        if kind in ("max", "min", "argmax", "argmin") and len(a.args) == 3:
            vs = [self.E(a.args[2], env | {d: j}) for j in range(self.size(d))]
            v = max(vs) if kind.endswith("max") else min(vs)
            return v if kind in ("max", "min") else D(vs.index(v))
        if kind == "count":
            return sum((self.E(a.args[2], env | {d: j}) for j in range(self.size(d))), D(0))
        en = {x: v for x, v in env.items() if x != d}
        r = h(self.seed, "red", tuple(self.arg(x, en, (d,)) if isinstance(x, al.E) else str(x) for x in a.args))
        return D("0.3") + 2 * r if a.pos else (r - D("0.5")) * D("1.9")

    def at(self, a, env):
        base, d, how = a.args
        n = self.size(d)
        if how[0] == "i":
            i = how[1]
            if isinstance(i, int):
                j = i % n
            else:
                j = int(h(self.seed, "at", self.arg(how, env)) * n)
        elif how[2] == "renamed":
            j = env[how[1]] % n
        elif how[2] == "off":
            j = (env[how[1]] + how[3]) % n
        elif how[2] == "take":
            x = self.E(how[3], env)
            j = int(x) % n if x == x.to_integral_value() else int(h(self.seed, "take", str(x)) * n)
        else:
            j = int(h(self.seed, "at", str(d), self.arg(how[2:], env), env[how[1]]) * n)
        return self.atom(base, env | {d: j})


class Middle(dict):
    """every axis at its middle"""
    def __missing__(self, d):
        return 1

    def __or__(self, o):
        return Middle({**self, **o})


_SIGNS = []


def negative(items):
    if not _SIGNS or _SIGNS[0].budget < 5000:
        _SIGNS[:] = [Point("sign")]
    p = _SIGNS[0]
    b = p.budget
    p.budget = 5000
    try:
        with decimal.localcontext(CTX):
            return sum((p.E(al.E(c, m), Middle()) for m, c in items), D(0)) < 0
    except (Bad, TooLong, decimal.DecimalException):
        return False
    finally:
        p.budget += b - 5000


_CACHE = {}


def differ(a, b):
    """True when the two graphs differ under a random interpretation"""
    key = (a, b)
    if key not in _CACHE:
        _CACHE[key] = _differ(a, b)
    return _CACHE[key]


def undefined(a, b):
    """a is not defined (the root of a negative number) at points where b is"""
    dims = sorted(al.deps(a) | al.deps(b), key=str)
    n = 0
    for seed in range(30):
        p = Point(seed)
        env = {d: int(h(seed, "env", str(d)) * p.size(d)) for d in dims}
        try:
            with decimal.localcontext(CTX):
                if not p.E(b, env):
                    continue
        except (Bad, TooLong, decimal.DecimalException):
            continue
        try:
            with decimal.localcontext(CTX):
                p.E(a, env)
            return False
        except Domain:
            n += 1
        except (Bad, TooLong, decimal.DecimalException):
            return False
        if n >= 5:
            return True
    return False


def refuted(a, b):
    """a (found) differs from b (required), the boundaries of the conditions included"""
    if differ(a, b):
        return True
    if undefined(a, b):
        _CACHE[a, b] = True
        return True
    if boundary(a, b):
        _CACHE[a, b] = True
        return True
    return False


_POINTS = {}
FINER = decimal.Context(prec=130, Emax=CTX.Emax, Emin=CTX.Emin, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
FINE = decimal.Context(prec=80, Emax=CTX.Emax, Emin=CTX.Emin, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])


def point(seed):
    p = _POINTS.get(seed)
    if p is None or p.budget < 1000:
        p = _POINTS[seed] = Point(seed)
    return p


def _apart(p, a, b, env):
    """None: both vanish"""
    x, y = p.E(a, env), p.E(b, env)
    s = abs(x) + abs(y)
    if s.is_infinite():
        raise Bad()
    return None if not s else abs(x - y) / s > D("1e-22")


def _really(seed, a, b, env):
    """the difference does not get smaller with the number of digits"""
    ds = []
    for fine in (FINE, FINER):
        with Precise(fine):
            if not _apart(Point(seed), a, b, env):
                return False
            p = Point(seed)
            ds.append(p.E(a, env) - p.E(b, env))
    return ds[0].is_infinite() or abs(ds[0] - ds[1]) <= abs(ds[0]) * D("1e-6")


def lengths(atoms):
    return {d[1] for i in atoms for d in al.ATOMS[i].deps if isinstance(d, tuple) and d[:1] == ("lin",)}


def _differ(a, b):
    dims = sorted(al.deps(a) | al.deps(b), key=str)
    good, t0 = 0, time.monotonic()
    A, B = al.all_atoms(a), al.all_atoms(b)
    cases = any(al.ATOMS[i].kind == "ind" for i in A ^ B) or lengths(A) != lengths(B)
    for seed in range(400 if cases else 40):
        if seed >= 40 and time.monotonic() - t0 > 10:
            break
        p = point(seed)
        p.budget = max(p.budget, 100000)
        env = {d: int(h(seed, "env", str(d)) * p.size(d)) for d in dims}
        try:
            with decimal.localcontext(CTX):
                r = _apart(p, a, b, env)
            if r:
                # not a cancellation
                if _really(seed, a, b, env):
                    return True
                r = False
        except (Bad, decimal.DecimalException):
            continue
        except TooLong:
            _POINTS.pop(seed, None)
            return False
        if r is not None:
            good += 1
            if good >= (8 * POINTS if cases else POINTS):
                break
    return False


def boundary(a, b):
    """True when the graphs differ where the argument of one of their conditions vanishes
    (the conditions which are not in both)"""
    A, B = al.all_atoms(a), al.all_atoms(b)
    conds = [i for i in sorted(A ^ B) if al.ATOMS[i].kind == "ind" and al.ATOMS[i].args[0] in ("ge0", "eq0")]
    dims = al.deps(a) | al.deps(b)
    t0 = time.monotonic()
    others = [s for s in variables(A | B) if s.pos][:6] if conds else []
    for i in conds[:10]:
        e = al.ATOMS[i].args[1]
        syms = variables(al.all_atoms(e))
        for s in syms[:4]:
            for seed in range(4):
                env = {d: int(h(seed, "env", str(d)) * (3 if not isinstance(d, tuple) else Point(seed).size(d))) for d in sorted(dims | al.deps(e), key=str)}
                try:
                    with Precise():
                        v = solve(seed, e, s, env)
                except (Bad, TooLong, decimal.DecimalException):
                    continue
                if v is None:
                    continue
                # at the boundary, and on both of its sides: what the condition selects may be rare
                for k in ("1", "1.000001", "0.999999", "1.03", "0.97"):
                    r = at_value(a, b, seed, dims, env, [(s, env, v * D(k))])
                    if r is None and k != "1" and time.monotonic() - t0 < 20:
                        # both vanish: the other symbols may be out of the range of interest
                        r = any(at_value(a, b, seed, dims, env, [(s, env, v * D(k)), (t, env, Point(seed).atom(t.id, env) * D(f))])
                                for t in others if t is not s for f in ("1e2", "1e6", "1e-2", "1e-6", "1e12", "1e18"))
                    if r:
                        return True
    return extremes(a, b, A, B, dims)


def extremes(a, b, A, B, dims):
    """the least (largest) of several values: each of them has to be the one"""
    if not any(al.ATOMS[i].kind == "fn" and al.ATOMS[i].args[0] in ("min_of", "max_of") for i in A | B):
        return False
    t0 = time.monotonic()
    scales = [s for s in variables(A | B) if s.pos][:8]
    for f in ("1e-12", "1e12", "1e-24", "1e24"):
        for s in scales:
            for seed in range(12):
                if time.monotonic() - t0 > 15:
                    return False
                env = {d: int(h(seed, "env", str(d)) * Point(seed).size(d)) for d in sorted(dims, key=str)}
                try:
                    with Precise():
                        v = Point(seed).atom(s.id, env)
                except (Bad, TooLong, decimal.DecimalException):
                    continue
                if at_value(a, b, seed, dims, env, [(s, env, v * D(f))]):
                    return True
    return False


def variables(ids):
    return [al.ATOMS[j] for j in sorted(ids) if al.ATOMS[j].kind == "sym" and str(al.ATOMS[j].args[0]) not in VALUES
            and al.ATOMS[j].args[0] not in ("pi", "ln10", "TEN", "EULER", "inf", "nan")]


def at_value(a, b, seed, dims, env, override):
    """the graphs differ when the symbols have the values given (None: both vanish)"""
    at = {d: env[d] for d in dims}
    ds = []
    try:
        for fine in (FINE, FINER):
            with Precise(fine):
                p = Point(seed)
                p.override = override
                if not ds:
                    r = _apart(p, a, b, at)
                    if not r:
                        return r
                ds.append(p.E(a, at) - p.E(b, at))
    except (Bad, TooLong, decimal.DecimalException):
        return False
    return ds[0].is_infinite() or abs(ds[0] - ds[1]) <= abs(ds[0]) * D("1e-6")


def solve(seed, e, s, env):
    """value of the symbol for which e vanishes"""
    def f(v):
        p = Point(seed)
        p.override = [(s, env, v)]
        return p.E(e, env), p
    v0 = Point(seed).atom(s.id, env)
    v1 = v0 * D("1.25")
    y0, y1 = f(v0)[0], f(v1)[0]
    for _ in range(60):
        if y1 == y0:
            return None
        v = v1 - y1 * (v1 - v0) / (y1 - y0)
        if s.pos and v <= 0:
            return None
        y, p = f(v)
        if not y or p.vanishes(e, env):
            return v
        v0, y0, v1, y1 = v1, y1, v, y
    return None


class Precise:
    def __init__(self, to=None):
        self.to = to or FINE

    def __enter__(self):
        global CTX
        self.old, CTX = CTX, self.to
        self.c = decimal.localcontext(self.to)
        self.c.__enter__()

    def __exit__(self, *a):
        global CTX
        CTX = self.old
        self.c.__exit__(*a)
