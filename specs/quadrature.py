# Integral of the curve which is a straight line in logarithmic coordinates between
# the points, and nothing in intervals of no width or with a vanishing end.
import numpy as np


def interval(x0, x1, y0, y1):
    """x**b, b different from -1"""
    b = (np.log(y1) - np.log(y0)) / np.log(x1 / x0)
    v = y0 * (x1 * (x1 / x0) ** b - x0) / (1 + b)
    return np.where((y0 == 0) | (y1 == 0) | (x0 == x1), 0, v)


def loglog(y, x):
    return np.sum(interval(x[..., :-1], x[..., 1:], y[..., :-1], y[..., 1:]), axis=-1)


def logarithm(k, x):
    """integral of k / x"""
    a, b = x[..., :-1], x[..., 1:]
    return k * np.sum(np.where(a == b, 0, np.log(b / a)), axis=-1)


def powers(k, p, x):
    """integral of k x**p"""
    a, b = x[..., :-1], x[..., 1:]
    return k * np.sum(np.where(a == b, 0, (b ** (p + 1) - a ** (p + 1)) / (p + 1)), axis=-1)


def power_law(k, p, lo, hi):
    return k * (hi ** (1 - p) - lo ** (1 - p)) / (1 - p)


def log_law(k, lo, hi):
    return k * np.log(hi / lo)


def cut(y, w):
    return np.where(w >= 0, y, 0)


def loglog_units(y, x):
    return loglog(y.value, x.value) * y.unit * x.unit
