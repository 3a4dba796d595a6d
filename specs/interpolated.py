# Interpolation of tabulated densities in log-log space.
import numpy as np
import astropy.units as u
from scipy.interpolate import CubicSpline


def _valid(gamma_in, n_in):
    nonzero = n_in.to_value("cm-3") != 0
    return gamma_in[nonzero], n_in.to_value("cm-3")[nonzero]


def limits(gamma_in, n_in):
    g, n = _valid(gamma_in, n_in)
    return np.min(g), np.max(g)


def interpolant(gamma_in, n_in):
    g, n = _valid(gamma_in, n_in)
    return CubicSpline(np.log10(g), np.log10(n))


def density2(gamma_in, n_in, norm, gamma, lo, hi):
    f = interpolant(gamma_in, n_in)
    return norm * np.where((gamma >= lo) & (gamma <= hi), 10 ** f(np.log10(gamma)), 0) * u.Unit("cm-3")


def density(gamma_in, n_in, norm, gamma):
    lo, hi = limits(gamma_in, n_in)
    return density2(gamma_in, n_in, norm, gamma, lo, hi)
