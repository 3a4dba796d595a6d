# Attenuation from an optical depth, and the tables of the EBL models.
import numpy as np
import astropy.units as u
from astropy.constants import h
from astropy.io import fits
from scipy.interpolate import RegularGridInterpolator


def along_path(tau):
    return np.exp(-tau)


def homogeneous(tau):
    """emission and absorption mixed in the same material; 1 without absorption"""
    return np.where(tau == 0, 1, (1 - np.exp(-tau)) / tau)


def ebl(path, repeated_row, nu, z):
    f = fits.open(path)
    E = np.sqrt(f["ENERGIES"].data["ENERG_LO"] * f["ENERGIES"].data["ENERG_HI"])
    zs = f["SPECTRA"].data["PARAMVAL"]
    t = f["SPECTRA"].data["INTPSPEC"]
    if repeated_row is not None:
        zs = np.delete(zs, repeated_row)
        t = np.delete(t, repeated_row, axis=0)
    i = RegularGridInterpolator((E, zs), t.T, method="linear", bounds_error=False)
    return i(((h * nu).to_value("keV"), z))
