# Documented shapes of the particle distributions, written independently.
import numpy as np


def support(gamma, gamma_min, gamma_max):
    return (gamma >= gamma_min) * (gamma <= gamma_max)


def PowerLaw(gamma, k, p, gamma_min, gamma_max):
    return np.where(support(gamma, gamma_min, gamma_max), k / gamma**p, 0)


def BrokenPowerLaw(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
    low = k * (gamma / gamma_b) ** (-p1)
    high = k * (gamma / gamma_b) ** (-p2)
    return np.where(support(gamma, gamma_min, gamma_max), np.where(gamma > gamma_b, high, low), 0)


def LogParabola(gamma, k, p, q, gamma_0, gamma_min, gamma_max):
    x = gamma / gamma_0
    return np.where(support(gamma, gamma_min, gamma_max), k * x ** (-(p + q * np.log10(x))), 0)


def ExpCutoffPowerLaw(gamma, k, p, gamma_c, gamma_min, gamma_max):
    return np.where(support(gamma, gamma_min, gamma_max), k * gamma ** (-p) * np.exp(-gamma / gamma_c), 0)


def ExpCutoffBrokenPowerLaw(gamma, k, p1, p2, gamma_c, gamma_b, gamma_min, gamma_max):
    cut = np.exp(-gamma / gamma_c)
    low = k * (gamma / gamma_b) ** (-p1) * cut
    high = k * (gamma / gamma_b) ** (-p2) * cut
    return np.where(support(gamma, gamma_min, gamma_max), np.where(gamma > gamma_b, high, low), 0)
