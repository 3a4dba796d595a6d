# Documented photon targets, [Dermer2002], [Dermer2009], [Finke2016].
import numpy as np
import astropy.units as u
from astropy.constants import c, h, G, M_sun, k_B, sigma_sb, m_e


def phi_grid(n):
    return np.linspace(0, 2 * np.pi, n)


def Beta(Gamma):
    return np.sqrt(1 - 1 / Gamma**2)


# ---- energy densities; boosts of the energy density of photons moving at an
# angle of cosine mu with respect to the motion: Gamma^2 (1 - Beta mu)^2
def boost(Gamma, mu):
    return (Gamma * (1 - Beta(Gamma) * mu)) ** 2


def u_cmb(z, Gamma=None):
    v = 7.5657e-15 * u.Unit("erg cm-3 K-4") * (2.72548 * u.K * (1 + z)) ** 4
    return v if Gamma is None else v * (4 * Gamma**2 - 1) / 3


def eps_cmb(z):
    return (2.7 * k_B * 2.72548 * u.K * (1 + z) / (m_e * c**2)).to_value("")


def u_ps(L, r, Gamma=None):
    v = L / (4 * np.pi * r**2 * c)
    return v if Gamma is None else v * boost(Gamma, 1)


def u_disk(M, L, eta, R_in, R_out, r, Gamma=None):
    """intensity of a ring integrated over the solid angle, Dermer 2009 Eq. 69"""
    R0 = G * M / c**2
    rt, ri, ro = (r / R0).to_value(""), (R_in / R0).to_value(""), (R_out / R0).to_value("")
    mu = np.linspace(1 / np.sqrt(1 + (ro / rt) ** 2), 1 / np.sqrt(1 + (ri / rt) ** 2), 100)
    t = np.sqrt(1 / mu**2 - 1)
    f = (1 - np.sqrt(ri / (rt * t))) / (mu * t**3)
    if Gamma is not None:
        f = f * boost(Gamma, mu)
    return 3 * L * R0 / (8 * np.pi * c * eta * r**3) * np.trapz(f, mu, axis=0)


def u_blr(L, xi, R, r, Gamma=None, signed=True):
    mu = np.linspace(-1, 1, 50)
    M = np.reshape(mu, (mu.size, 1))
    X = np.reshape(r, (1, r.size))
    d2 = X**2 + R**2 - 2 * X * R * M
    f = 1 / d2
    if Gamma is not None:
        s = np.sqrt(1 - R**2 / d2 * (1 - M**2))
        f = f * boost(Gamma, np.where(X > M * R, s, -s) if signed else s)
    return xi * L / (8 * np.pi * c) * np.trapz(f, mu, axis=0)


def u_dt(L, xi, R, r, Gamma=None):
    d = np.sqrt(R**2 + r**2)
    v = xi * L / (4 * np.pi * c * d**2)
    return v if Gamma is None else v * boost(Gamma, (r / d).to_value(""))


# ---- derived quantities
def M8(M):
    return (M / (1e8 * M_sun)).to_value("")


def L_Edd(M):
    return 1.26e46 * M8(M) * u.Unit("erg s-1")


def m_dot(L, eta):
    return L / (eta * c**2)


def R_g(M):
    return G * M / c**2


def in_R_g(R, M):
    return (R * c**2 / (G * M)).to_value("")


def disk_eps(L, M, eta, Rt):
    """Dermer 2009 Eq. 65"""
    lE = (L / L_Edd(M)).to_value("")
    return 2.7e-4 * (lE / (M8(M) * eta)) ** (1 / 4) * Rt ** (-3 / 4)


def disk_R(mu, rt):
    return rt * np.sqrt(1 / mu**2 - 1)


def disk_phi(ri, Rt):
    return 1 - np.sqrt(ri / Rt)


def disk_T(R, M, mdot, R_in):
    """Dermer 2009 Eq. 64"""
    return (3 * G * M * mdot / (8 * np.pi * R**3 * sigma_sb) * (1 - np.sqrt(R_in / R))) ** (1 / 4)


def disk_mu(ri, ro, rt, size):
    return np.linspace(1 / np.sqrt(1 + (ro / rt) ** 2), 1 / np.sqrt(1 + (ri / rt) ** 2), size)


def eps_line(lam):
    return (h / (lam * m_e * c)).to_value("")


def Theta(T):
    return (k_B * T / (m_e * c**2)).to_value("")


def R_sublimation(L, T):
    return 3.5e18 * u.cm * np.sqrt((L / (1e45 * u.Unit("erg s-1"))).to_value("")) * (T / (1e3 * u.K)).to_value("") ** (-2.6)


# ---- thermal SEDs
def planck(nu, T):
    return 2 * h * nu**3 / c**2 / (np.exp(h * nu / (k_B * T)) - 1)


NU_DISK = np.logspace(3, 21, 100) * u.Hz


def disk_sed(nu, M, mdot, R_in, R_out, d_L, mu_s):
    """emission of the disk at redshift 0"""
    R = np.linspace(R_in, R_out, 100)
    Rc = np.reshape(R, (R.size, 1))
    nr = np.reshape(nu, (1, nu.size))
    I = np.trapz(Rc * planck(nr, disk_T(Rc, M, mdot, R_in)), R, axis=0)
    return mu_s * nu * 2 * np.pi / d_L**2 * I


def disk_sed_z(nu, z, M, mdot, R_in, R_out, d_L, mu_s):
    return disk_sed(nu * (1 + z), M, mdot, R_in, R_out, d_L, mu_s)


def luminosity(sed, nu, d_L):
    return 4 * np.pi * d_L**2 * np.trapz(sed / nu, nu)


def disk_norm(nu, z, L, M, mdot, R_in, R_out, d_L, mu_s):
    """both faces of the disk radiate L over the frequencies 10^3 - 10^21 Hz"""
    tot = 2 * luminosity(disk_sed_z(NU_DISK, z, M, mdot, R_in, R_out, d_L, mu_s), NU_DISK, d_L)
    return L / tot * disk_sed_z(nu, z, M, mdot, R_in, R_out, d_L, mu_s)


def torus_sed(nu, T, R, d_L):
    return nu * np.pi * (R / d_L) ** 2 * planck(nu, T)


def torus_norm(nu, L, T, R, d_L):
    """Stefan-Boltzmann: a sphere of radius R radiates 4 pi R^2 sigma T^4"""
    return L / (4 * np.pi * R**2 * sigma_sb * T**4) * torus_sed(nu, T, R, d_L)


def at_z(f, nu, z, *args):
    return f(nu * (1 + z), *args)


def d_L(z):
    from astropy.coordinates import Distance
    return Distance(z=z).to("cm")
