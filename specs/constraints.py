# Time scales compared by the spectral constraints (per electron of Lorentz factor gamma)
import numpy as np
import astropy.units as u
from astropy.constants import c, m_e, sigma_T
from astropy.constants import e as e_si

e = e_si.gauss
GAUSS = u.Unit("cm(-1/2) g(1/2) s-1")


def Bgauss(B):
    return B.to_value("G") * GAUSS


def R_L(g, B):
    return g * m_e * c**2 / (e * Bgauss(B))


def U_B(B):
    return Bgauss(B) ** 2 / (8 * np.pi)


def T_acc(g, B, xi):
    return R_L(g, B) / (xi * c)


def T_loss(g, U):
    """E / (4/3 sigma_T c U gamma^2)"""
    return g * m_e * c**2 / (4 / 3 * sigma_T * c * U * g**2)


def T_bal(R_b):
    return R_b / c
