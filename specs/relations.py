# Relations between evaluations of the same quantity for different inputs.
import numpy as np
import astropy.units as u
from astropy.constants import c, h, sigma_T, m_e


def comoving(nu, z, delta_D):
    return nu * (1 + z) / delta_D


def boost(delta_D, d_L, d_L0):
    return (delta_D**4 * d_L0**2 / d_L**2).to_value("")


def power(x, n):
    return x**n


def diff_energy_flux(nu, sed):
    E = h * nu
    return sed / E**2


def nu_grid(nu_min, nu_max, n):
    return np.logspace(np.log10(nu_min.to_value("Hz")), np.log10(nu_max.to_value("Hz")), n) * u.Hz


def energy_flux(nu, sed):
    return np.trapz(sed / nu, nu)


def flux(nu, sed):
    E = h * nu
    return np.trapz(sed / E**2, E)


def luminosity(d_L, sed):
    return 4 * np.pi * d_L**2 * sed


def loss(U, gamma):
    return 4 / 3 * sigma_T * c * U * gamma**2


def of_energy(E):
    return E / h


def frequency_of_wavelength(l):
    return c / l


def acceleration(gamma, t):
    return gamma * m_e * c**2 / t
