# The documented step of the time evolution: each Lorentz factor is the lower
# end of a narrow bin, both ends move with the energy change rates at the ends,
# the particles of the bin stay in it, injection and escape act on the
# density at the start of the step.
import numpy as np
import astropy.units as u
from astropy.constants import c, m_e
from agnpy.spectra import InterpolatedDistribution
from scipy.interpolate import PchipInterpolator

mec2 = (m_e * c**2).to("erg")
WIDTH = 1e-4


def at_rest(gamma):
    """the energy which belongs to a Lorentz factor"""
    return gamma * mec2


def total(fns, name, gamma, state, unit):
    r = np.zeros_like(gamma) * u.Unit(unit)
    for f in fns:
        r = r + f(gamma, state)
    return r


def move(gamma, d_lo, d_up, h):
    """new ends of the bins and the factor on the density"""
    up = gamma * (1 + WIDTH)
    new = gamma * mec2 + d_lo * h
    new_up = up * mec2 + d_up * h
    return (new / mec2).to_value(""), (new_up / mec2).to_value(""), (up - gamma) * mec2 / (new_up - new)


def groups_of(names, groups):
    return [[f for f in names if f in g] for g in groups]


def advance(gamma, n, frac, rates, inj, h, heun, again):
    """one step of the groups; rates: per group (lower end, upper end), inj:
    per group (relative, absolute); again(gamma, up, dens, frac): rates at new bins"""
    new = once(gamma, n, frac, rates, inj, h)
    if heun:
        more = again(*new)
        mean = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(rates, more)]
        new = once(gamma, n, frac, mean, inj, h)
    return new


def once(gamma, n, frac, rates, inj, h):
    parts = []
    for i in range(len(rates)):
        g, up, factor = move(gamma, rates[i][0], rates[i][1], h)
        start = n * frac[i]
        parts.append((g, up, start * factor + (start * inj[i][0] + inj[i][1]) * h))
    g, up, d = parts[0]
    dens = [d]
    for x, _, y in parts[1:]:
        if np.all(y.value == 0) or np.all(x == g):
            dens.append(y)
            continue
        # brought to the bins of the first group
        dens.append(InterpolatedDistribution(x, y, interpolator=PchipInterpolator)(g))
    tot = dens[0]
    for y in dens[1:]:
        tot = tot + y
    fr = [np.where(tot.value != 0, y.value / np.where(tot.value != 0, tot.value, 1), frac[i]) for i, y in enumerate(dens)]
    return g, up, tot, fr


def ordered(gamma, n, frac):
    k = np.argsort(gamma)
    return gamma[k], n[k], [f[k] for f in frac]


# the bins are kept between the bounds; a bin is added at a bound from which
# the particles move away
def within(gamma, n, frac, lo, hi):
    keep = (gamma >= lo) & (gamma <= hi / (1 + WIDTH))
    return gamma[keep], n[keep], [f[keep] for f in frac]


def filled_low(gamma, n, frac, lo):
    g = np.concatenate([np.array([lo]), gamma])
    d = np.concatenate([np.array([0]), n.to_value("cm-3")]) * u.Unit("cm-3")
    return g, d, [np.concatenate([np.array([1.0 if i == 0 else 0.0]), f]) for i, f in enumerate(frac)]


def filled_up(gamma, n, frac, hi):
    g = np.concatenate([gamma, np.array([hi / (1 + WIDTH)])])
    d = np.concatenate([n.to_value("cm-3"), np.array([0])]) * u.Unit("cm-3")
    return g, d, [np.concatenate([f, np.array([1.0 if i == 0 else 0.0])]) for i, f in enumerate(frac)]


def rest_energy():
    return mec2


# automatic steps: the longest time in which no bin changes by more than the limits
def longest(gamma, rates, inj, e_max, d_max, i_max):
    up = gamma * (1 + WIDTH)
    lo_e, up_e = gamma * mec2, up * mec2
    one_rate, one_rel, one_abs = 1 * u.Unit("erg s-1"), 1 * u.Unit("s-1"), 1 * u.Unit("cm-3 s-1")
    t = np.repeat(np.inf, len(gamma)) * u.s
    for (r_lo, r_up), (rel, abs_) in zip(rates, inj):
        # relative change of the energy of both ends
        for e, r in ((lo_e, r_lo), (up_e, r_up)):
            t = np.minimum(t, np.where(r != 0, e_max * e / np.where(r != 0, abs(r), one_rate), np.inf * u.s))
        # relative change of the density while the bin becomes wider or narrower:
        # dx / (dx + df t) between 1 / (1 + d_max) and 1 + d_max
        df, dx = r_up - r_lo, up_e - lo_e
        ratio = dx / np.where(df != 0, df, one_rate)
        t = np.minimum(t, np.where(df != 0, np.where(ratio > 0, d_max * ratio, -ratio * d_max / (1 + d_max)), np.inf * u.s))
        # no more than half of the particles escape
        t = np.minimum(t, np.where(rel < 0, -0.5 / np.where(rel < 0, rel, one_rel), np.inf * u.s))
        t = np.minimum(t, np.where(abs_ != 0, i_max * u.Unit("cm-3") / np.where(abs_ != 0, abs(abs_), one_abs), np.inf * u.s))
    return t


def shortest(t):
    return np.min(t)


# bins whose rates change slowly keep them for as long as their own limits allow
def slow_first(gamma, rate, rate_up, e_max, d_max):
    return longest(gamma, [(rate, rate_up)], [(np.zeros_like(gamma) * u.Unit("s-1"), np.zeros_like(gamma) * u.Unit("cm-3 s-1"))], e_max, d_max, 1)


def slow_step(gamma, up, n, left, rate, rate_up, h, again):
    """state after a step of h: the bins with less time left than another such step get new rates"""
    e, e_up = gamma * mec2, up * mec2
    new, new_up = e + rate * h, e_up + rate_up * h
    dens = n * (e_up - e) / (new_up - new)
    g, g_up = (new / mec2).to_value(""), (new_up / mec2).to_value("")
    k = np.argsort(g)
    g, g_up, dens, left = g[k], g_up[k], dens[k], (left - h)[k]
    fresh = left < h
    g_up = np.where(fresh, g * (1 + WIDTH), g_up)
    r, r_up = again(g), again(g_up)
    return g, g_up, dens, np.where(fresh, 0 * u.s, left), np.where(fresh, r, rate[k]), np.where(fresh, r_up, rate_up[k])
