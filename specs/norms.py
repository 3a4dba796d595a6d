# Integrals and normalisations of the particle distributions.
import numpy as np
import astropy.units as u
from astropy.constants import c


def moment(n, low, up, power, integrator=np.trapz):
    gamma = np.logspace(np.log10(low), np.log10(up), 200)
    return integrator(n(gamma) * gamma**power, gamma, axis=0)


def energy(n, low, up, mass):
    return mass * c**2 * moment(n, low, up, 1)
