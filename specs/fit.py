# What a fitted model must evaluate to: the sum of the emission processes of the package
# at the physical values that the parameters stand for.
import numpy as np
import astropy.units as u
from astropy.constants import c, h, k_B, m_e
from astropy.coordinates import Distance
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.targets import SSDisk, RingDustTorus

GAMMA_EC = np.logspace(1, 9, 300)


def distance(z):
    return Distance(z=z).to("cm")


def radius(z, delta_D, t_var):
    return (c * t_var * delta_D / (1 + z)).to("cm")


def ssc(nu, n_e, args, ssa, z, d_L, delta_D, B, R_b):
    a = Synchrotron.evaluate_sed_flux(nu, z, d_L, delta_D, B, R_b, n_e, *args, ssa=ssa)
    b = SynchrotronSelfCompton.evaluate_sed_flux(nu, z, d_L, delta_D, B, R_b, n_e, *args, ssa=ssa)
    return a + b


def disk(nu, z, d_L, L_disk, M_BH, m_dot, R_in, R_out):
    return SSDisk.evaluate_multi_T_bb_norm_sed(nu, z, L_disk, M_BH, m_dot, R_in, R_out, d_L)


def blr(nu, n_e, args, z, d_L, delta_D, R_b, mu_s, r, L_disk, xi_line, lambda_line, R_line):
    epsilon_line = (h / (m_e * c * lambda_line)).to_value("")
    return ExternalCompton.evaluate_sed_flux_blr(
        nu, z, d_L, delta_D, mu_s, R_b, L_disk, xi_line, epsilon_line, R_line, r, n_e, *args, gamma=GAMMA_EC)


def dt(nu, n_e, args, z, d_L, delta_D, R_b, mu_s, r, L_disk, xi_dt, T_dt, R_dt):
    epsilon_dt = 2.7 * (k_B * T_dt / (m_e * c**2)).to_value("")
    a = ExternalCompton.evaluate_sed_flux_dt(
        nu, z, d_L, delta_D, mu_s, R_b, L_disk, xi_dt, epsilon_dt, R_dt, r, n_e, *args, gamma=GAMMA_EC)
    b = RingDustTorus.evaluate_bb_norm_sed(nu, z, xi_dt * L_disk, T_dt, R_dt, d_L)
    return a + b


def total(E, n_e, args, ssa, targets, P, R_b=None):
    """P: physical values by name (with units)"""
    nu = (E / h).to("Hz")
    z = P["z"]
    delta_D = P["delta_D"]
    d_L = distance(z)
    if R_b is None:
        R_b = radius(z, delta_D, P["t_var"])
    sed = ssc(nu, n_e, args, ssa, z, d_L, delta_D, P["B"], R_b)
    if targets is None:
        return sed
    sed = sed + disk(nu, z, d_L, P["L_disk"], P["M_BH"], P["m_dot"], P["R_in"], P["R_out"])
    if "blr" in targets:
        sed = sed + blr(nu, n_e, args, z, d_L, delta_D, R_b, P["mu_s"], P["r"], P["L_disk"], P["xi_line"], P["lambda_line"], P["R_line"])
    if "dt" in targets:
        sed = sed + dt(nu, n_e, args, z, d_L, delta_D, R_b, P["mu_s"], P["r"], P["L_disk"], P["xi_dt"], P["T_dt"], P["R_dt"])
    return sed
