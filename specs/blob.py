# Documented relations among the quantities of the emission region.
import numpy as np
import astropy.units as u
from astropy.constants import c, m_e, m_p, sigma_T
from astropy.coordinates import Distance

GAUSS = u.Unit("cm(-1/2) g(1/2) s-1")


def B_cgs(B):
    return B.to_value("G") * GAUSS


def d_L(z, cosmology=None):
    return Distance(z=z, cosmology=cosmology).cgs


def V_b(R_b):
    return 4 * np.pi * R_b**3 / 3


def t_var(R_b, z, delta_D):
    return R_b * (1 + z) / (c * delta_D)


def Beta(Gamma):
    return np.sqrt(1 - 1 / Gamma**2)


def mu_s(Gamma, delta_D):
    return (1 - 1 / (Gamma * delta_D)) / Beta(Gamma)


def theta_s(Gamma, delta_D):
    return np.arccos(mu_s(Gamma, delta_D)) * u.rad


def doppler(Gamma, theta):
    return 1 / (Gamma * (1 - Beta(Gamma) * np.cos(theta)))


def grid(gamma_min, gamma_max, size):
    return np.logspace(np.log10(gamma_min), np.log10(gamma_max), size)


def grid_external(size):
    return np.logspace(1, 9, size)


def moment(n, gamma, power):
    return np.trapz(gamma**power * n(gamma), gamma)


def U_B(B):
    return B_cgs(B) ** 2 / (8 * np.pi)


def u_particles(n, gamma, mass):
    return mass * c**2 * moment(n, gamma, 1)


def P_jet(R_b, Gamma, density):
    return 2 * np.pi * R_b**2 * Beta(Gamma) * Gamma**2 * c * density


def u_ph_synch(B, R_b, n, gamma):
    return sigma_T * U_B(B) * R_b * moment(n, gamma, 2)


def u_ph_synch_diff(R_b, d_L, delta_D, epsilon, sed):
    # 3/4 of Eq. 8 of Finke et al. 2008: average over a sphere
    return 9 * d_L**2 * sed / (4 * c * R_b**2 * delta_D**4 * epsilon)


# maximum and break Lorentz factors
def gamma_break_size(B, R_b):
    from astropy.constants import e, h
    return R_b


def nu_to_epsilon(nu, z, delta_D, mass):
    from astropy.constants import h
    return h * nu * (1 + z) / (delta_D * mass * c**2)
