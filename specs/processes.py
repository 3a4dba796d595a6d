# Documented equations of the radiative processes, written from the papers quoted
# in the documentation ([DermerMenon2009], [Finke2008], [Dermer2009], [Finke2016]).
import numpy as np
import astropy.units as u
from astropy.constants import c, h, m_e, m_p, sigma_T, G
from astropy.constants import e as e_si

e = e_si.gauss
GAUSS = u.Unit("cm(-1/2) g(1/2) s-1")


def Bgauss(B):
    return B.to_value("G") * GAUSS


def eps(nu, z, delta_D, mass):
    return (h * nu * (1 + z) / (delta_D * mass * c**2)).to_value("")


# ---------------------------------------------------------------- synchrotron
def R_synch(x):
    # Aharonian, Kelner, Prosekin 2010, Eq. D7
    a = 1.808 * x ** (1 / 3) / np.sqrt(1 + 3.4 * x ** (2 / 3))
    b = (1 + 2.21 * x ** (2 / 3) + 0.347 * x ** (4 / 3)) / (1 + 1.353 * x ** (2 / 3) + 0.217 * x ** (4 / 3))
    return a * b * np.exp(-x)


def x_synch(B, epsilon, gamma, mass):
    return (4 * np.pi * epsilon * mass**2 * c**3 / (3 * e * B * h * gamma**2)).to_value("")


def power(B, epsilon, gamma, mass):
    # P(epsilon, gamma) = sqrt(3) e^3 B R(x) / h
    return np.sqrt(3) * e**3 * B / h * R_synch(x_synch(B, epsilon, gamma, mass))


def volume(R_b):
    return 4 * np.pi * R_b**3 / 3


def col(x):
    return np.reshape(x, (x.size, 1))


def row(x):
    return np.reshape(x, (1, x.size))


def synch(nu, z, d_L, delta_D, B, R_b, n, gamma, mass, integrator=np.trapz):
    """Finke 2008, Eq. 21; n: function of the Lorentz factor"""
    x = eps(nu, z, delta_D, mass)
    g = col(gamma)
    P = power(Bgauss(B), row(x), g, mass)
    J = integrator(volume(R_b) * n(g) * P, gamma, axis=0)
    return delta_D**4 * x * J / (4 * np.pi * d_L**2)


def tau_ssa(nu, z, delta_D, B, R_b, dn, gamma, integrator=np.trapz):
    """DermerMenon 2009, before Eq. 7.122; dn = gamma^2 d(n/gamma^2)/dgamma"""
    x = eps(nu, z, delta_D, m_e)
    g = col(gamma)
    P = power(Bgauss(B), row(x), g, m_e)
    I = integrator(dn(g) * P, gamma, axis=0)
    lam = h / (m_e * c)
    kappa = -I / (8 * np.pi * m_e * x**2) * (lam / c) ** 3
    return (2 * kappa * R_b).to_value("")


def attenuation(tau):
    """DermerMenon 2009, Eq. 7.122: the average escape from a sphere"""
    return np.where(tau < 1e-3, 1, 3 / tau * (1 / 2 + np.exp(-tau) / tau - (1 - np.exp(-tau)) / tau**2))


def synch_ssa(nu, z, d_L, delta_D, B, R_b, n, dn, gamma, integrator=np.trapz):
    return synch(nu, z, d_L, delta_D, B, R_b, n, gamma, m_e, integrator) * attenuation(
        tau_ssa(nu, z, delta_D, B, R_b, dn, gamma, integrator))


def synch_delta(nu, z, d_L, delta_D, B, R_b, n):
    """DermerMenon 2009, Eq. 7.70"""
    Bcr = 4.414e13 * GAUSS
    b = Bgauss(B)
    gs = np.sqrt(eps(nu, z, delta_D, m_e) / (b / Bcr).to_value(""))
    UB = b**2 / (8 * np.pi)
    return delta_D**4 * c * sigma_T * UB * gs**3 * volume(R_b) * n(gs) / (6 * np.pi * d_L**2)


def nu_peak(B, gamma, mass):
    return e * Bgauss(B) * gamma**2 / (2 * np.pi * mass * c)


# ---------------------------------------------------------------- SSC
def F_c(q, Ge):
    return 2 * q * np.log(q) + (1 + 2 * q) * (1 - q) + (Ge * q) ** 2 * (1 - q) / (2 * (1 + Ge * q))


def jones(gamma, epsilon, epsilon_s):
    Ge = 4 * epsilon * gamma
    q = (epsilon_s / gamma) / (Ge * (1 - epsilon_s / gamma))
    return np.where((1 / (4 * gamma**2) <= q) * (q <= 1), F_c(q, Ge), 0)


NU_SSC = np.logspace(5, 30, 200) * u.Hz


def ssc(nu, z, d_L, delta_D, B, R_b, n, dn, gamma, ssa, integrator=np.trapz):
    """Finke 2008, Eq. 9, seed photons with the 3/4 average over the sphere"""
    xs = eps(nu, z, delta_D, m_e)
    x = eps(NU_SSC, z, delta_D, m_e)
    if ssa:
        seed = synch_ssa(NU_SSC, z, d_L, delta_D, B, R_b, n, dn, gamma, integrator)
    else:
        seed = synch(NU_SSC, z, d_L, delta_D, B, R_b, n, gamma, m_e, integrator)
    dens = 9 * d_L**2 * seed / (4 * c * R_b**2 * delta_D**4 * x)
    g = np.reshape(gamma, (gamma.size, 1, 1))
    X = np.reshape(x, (1, x.size, 1))
    D = np.reshape(dens, (1, x.size, 1))
    XS = np.reshape(xs, (1, 1, xs.size))
    I = D / X**2 * volume(R_b) * n(g) / g**2 * jones(g, X, XS)
    J = integrator(integrator(I, gamma, axis=0), x, axis=0)
    return delta_D**4 / (4 * np.pi * d_L**2) * 3 / 4 * c * sigma_T * xs**2 * J


def ssc_loss(gamma, z, d_L, delta_D, B, R_b, n):
    """Moderski 2005, Sect. 2.1"""
    grid = np.logspace(1, 9, 200)
    x = eps(NU_SSC, z, delta_D, m_e)
    seed = synch(NU_SSC, z, d_L, delta_D, B, R_b, n, grid, m_e)
    dens = 9 * d_L**2 * seed / (4 * c * R_b**2 * delta_D**4 * x)
    b = 4 * col(gamma) * row(x)
    f = np.where(b < 1e4, (1 + b) ** (-1.5), 9 / (2 * b**2) * (np.log(b) - 11 / 6))
    U = np.trapz(f * dens, x)
    return 4 / 3 * sigma_T * c * gamma**2 * U


# ---------------------------------------------------------------- kernels
def cospsi(mu_s, mu, phi):
    return mu * mu_s + np.sqrt(1 - mu**2) * np.sqrt(1 - mu_s**2) * np.cos(phi)


def gamma_low(epsilon_s, epsilon, mu_s, mu, phi):
    return epsilon_s / 2 * (1 + np.sqrt(1 + 2 / (epsilon * epsilon_s * (1 - cospsi(mu_s, mu, phi)))))


def compton(gamma, epsilon_s, epsilon, mu_s, mu, phi):
    """Dermer 2009, Eq. 26-27"""
    eb = gamma * epsilon * (1 - cospsi(mu_s, mu, phi))
    y = 1 - epsilon_s / gamma
    xi = y + 1 / y - 2 * epsilon_s / (gamma * eb * y) + (epsilon_s / (gamma * eb * y)) ** 2
    return np.where(gamma >= gamma_low(epsilon_s, epsilon, mu_s, mu, phi), xi, 0)


# ---------------------------------------------------------------- external Compton
def ax(x, i, n):
    s = [1] * n
    s[i] = x.size
    return np.reshape(x, tuple(s))


def ec_iso(nu, z, d_L, delta_D, mu_s, R_b, epsilon_0, u_0, n, gamma, mu, phi, integrator=np.trapz):
    """isotropic monochromatic field, Finke 2016 Eq. 88"""
    xs = eps(nu, z, 1, m_e)
    g, M, P, S = ax(gamma, 0, 4), ax(mu, 1, 4), ax(phi, 2, 4), ax(xs, 3, 4)
    f = volume(R_b) * n(g / delta_D) / g**2 * compton(g, S, epsilon_0, mu_s, M, P)
    I = np.trapz(np.trapz(integrator(f, gamma, axis=0), mu, axis=0), phi, axis=0)
    return 3 * c * sigma_T * u_0 * xs**2 * delta_D**3 / (2**7 * np.pi**2 * d_L**2 * epsilon_0**2) * I


def ec_ps(nu, z, d_L, delta_D, mu_s, R_b, epsilon_0, L_0, r, n, gamma, integrator=np.trapz):
    """point source behind the jet"""
    xs = eps(nu, z, 1, m_e)
    g, S = ax(gamma, 0, 2), ax(xs, 1, 2)
    f = volume(R_b) * n(g / delta_D) / g**2 * compton(g, S, epsilon_0, mu_s, 1, 0)
    I = integrator(f, gamma, axis=0)
    return 3 * sigma_T * L_0 * xs**2 * delta_D**3 / (2**7 * np.pi**2 * d_L**2 * r**2 * epsilon_0**2) * I


def Rg(M):
    return G * M / c**2


def disk_mu(R_in, R_out, r, size):
    return np.linspace(1 / np.sqrt(1 + (R_out / r) ** 2), 1 / np.sqrt(1 + (R_in / r) ** 2), size)


def disk_eps(L_disk, M_BH, eta, Rt):
    """Dermer 2009 Eq. 65"""
    from astropy.constants import M_sun
    M8 = (M_BH / (1e8 * M_sun)).to_value("")
    LE = 1.26e46 * M8 * u.Unit("erg s-1")
    lE = (L_disk / LE).to_value("")
    return 2.7e-4 * (lE / (M8 * eta)) ** (1 / 4) * Rt ** (-3 / 4)


def ec_disk(nu, z, d_L, delta_D, mu_s, R_b, M_BH, L_disk, eta, R_in, R_out, r, n, gamma, mu_size, phi, integrator=np.trapz):
    """Dermer 2009 Eq. 70"""
    xs = eps(nu, z, 1, m_e)
    R0 = Rg(M_BH)
    rt, ri, ro = (r / R0).to_value(""), (R_in / R0).to_value(""), (R_out / R0).to_value("")
    mu = disk_mu(ri, ro, rt, mu_size)
    g, M, P, S = ax(gamma, 0, 4), ax(mu, 1, 4), ax(phi, 2, 4), ax(xs, 3, 4)
    Rt = rt * np.sqrt(M ** (-2) - 1)
    x = disk_eps(L_disk, M_BH, eta, Rt)
    ph = 1 - np.sqrt(ri / Rt)
    f = ph / x**2 / M / (M ** (-2) - 1) ** (3 / 2) * volume(R_b) * n(g / delta_D) / g**2 * compton(g, S, x, mu_s, M, P)
    I = np.trapz(np.trapz(integrator(f, gamma, axis=0), mu, axis=0), phi, axis=0)
    mdot = L_disk / (eta * c**2)
    return 9 * sigma_T * G * M_BH * mdot * xs**2 * delta_D**3 / (2**9 * np.pi**3 * d_L**2 * r**3) * I


def shell_x(mu, R, r):
    return np.sqrt(R**2 + r**2 - 2 * r * R * mu)


def shell_mu_star(mu, R, r):
    s = np.sqrt(1 - (R / shell_x(mu, R, r)) ** 2 * (1 - mu**2))
    return np.where(r > mu * R, s, -s)


def ec_blr(nu, z, d_L, delta_D, mu_s, R_b, L_disk, xi_line, epsilon_line, R_line, r, n, gamma, mu, phi, integrator=np.trapz):
    """Finke 2016 Eq. 87-88 with the shell of Eq. 80"""
    xs = eps(nu, z, 1, m_e)
    g, M, P, S = ax(gamma, 0, 4), ax(mu, 1, 4), ax(phi, 2, 4), ax(xs, 3, 4)
    d = shell_x(M, R_line, r)
    ms = shell_mu_star(M, R_line, r)
    f = 1 / d**2 * volume(R_b) * n(g / delta_D) / g**2 * compton(g, S, epsilon_line, mu_s, ms, P)
    I = np.trapz(np.trapz(integrator(f, gamma, axis=0), mu, axis=0), phi, axis=0)
    return 3 * sigma_T * xi_line * L_disk * xs**2 * delta_D**3 / (2**9 * np.pi**3 * d_L**2 * epsilon_line**2) * I


def ec_dt(nu, z, d_L, delta_D, mu_s, R_b, L_disk, xi_dt, epsilon_dt, R_dt, r, n, gamma, phi, integrator=np.trapz):
    """Finke 2016 Eq. 91"""
    xs = eps(nu, z, 1, m_e)
    g, P, S = ax(gamma, 0, 3), ax(phi, 1, 3), ax(xs, 2, 3)
    d = np.sqrt(R_dt**2 + r**2)
    mu = (r / d).to_value("")
    f = volume(R_b) * n(g / delta_D) / g**2 * compton(g, S, epsilon_dt, mu_s, mu, P)
    I = np.trapz(integrator(f, gamma, axis=0), phi, axis=0)
    return 3 * sigma_T * xi_dt * L_disk * xs**2 * delta_D**3 / (2**8 * np.pi**3 * d_L**2 * d**2 * epsilon_dt**2) * I


# ---------------------------------------------------------------- pair production
MIN_DIST = 1e-4


def sigma_gg(s):
    """Dermer 2009, Eq. 17"""
    b = np.sqrt(1 - 1 / s)
    v = 3 / 16 * sigma_T * (1 - b**2) * ((3 - b**4) * np.log((1 + b) / (1 - b)) - 2 * b * (2 - b**2))
    return np.where(s < 1, 0 * sigma_T, v)


def mec3():
    return m_e * c**3


def tau_ps(nu, z, mu_s, epsilon_0, L_0, r):
    x1 = eps(nu, z, 1, m_e)
    s = epsilon_0 * x1 * (1 - mu_s) / 2
    return (L_0 / (4 * np.pi * epsilon_0 * mec3()) * (1 - mu_s) * sigma_gg(s) / r).to_value("")


def tau_ps_off(nu, z, mu_s, epsilon_0, L_0, r, u_size):
    x1 = eps(nu, z, 1, m_e)
    path = np.logspace(-5, 5, u_size) * r
    U, X = ax(path, 0, 2), ax(x1, 1, 2)
    d = np.sqrt(r**2 + U**2 + 2 * U * r * mu_s)
    mu = (r + U * mu_s) / d
    cp = cospsi(mu_s, mu, 0)
    f = (1 - cp) / d**2 * sigma_gg(epsilon_0 * X * (1 - cp) / 2)
    return (L_0 / (4 * np.pi * epsilon_0 * mec3()) * np.trapz(f, path, axis=0)).to_value("")


def tau_disk(nu, z, mu_s, M_BH, L_disk, eta, R_in, R_out, r, R_size, l_size, phi):
    """Finke 2016, Eq. 63 of Dermer 2009 for the disk flux"""
    x1 = eps(nu, z, 1, m_e)
    R0 = Rg(M_BH)
    rt, ri, ro = (r / R0).to_value(""), (R_in / R0).to_value(""), (R_out / R0).to_value("")
    Rt = np.linspace(ri, ro, R_size)
    l = np.logspace(0, 5, l_size) * rt
    R, P, L, X = ax(Rt, 0, 4), ax(phi, 1, 4), ax(l, 2, 4), ax(x1, 3, 4)
    x = disk_eps(L_disk, M_BH, eta, R)
    w = 1 + (R / L) ** 2
    cp = cospsi(mu_s, 1 / np.sqrt(w), P)
    f = (1 - np.sqrt(ri / R)) / (L**2 * R**2 * w ** (3 / 2) * x) * sigma_gg(x * X * (1 - cp) / 2) * (1 - cp)
    I = np.trapz(np.trapz(np.trapz(f, Rt, axis=0), phi, axis=0), l, axis=0)
    return (3 * L_disk / ((4 * np.pi) ** 2 * eta * mec3() * R0) * I).to_value("")


def tau_blr(nu, z, mu_s, L_disk, xi_line, epsilon_line, R_line, r, l_size, mu, phi):
    x1 = eps(nu, z, 1, m_e)
    l = np.logspace(0, 5, l_size) * r
    l = np.where(np.abs(l - R_line) <= MIN_DIST * R_line, l + MIN_DIST * R_line, l)
    M, P, L, X = ax(mu, 0, 4), ax(phi, 1, 4), ax(l, 2, 4), ax(x1, 3, 4)
    d = shell_x(M, R_line, L)
    cp = cospsi(mu_s, shell_mu_star(M, R_line, L), P)
    f = (1 - cp) / d**2 * sigma_gg(X * epsilon_line * (1 - cp) / 2)
    I = np.trapz(np.trapz(np.trapz(f, mu, axis=0), phi, axis=0), l, axis=0)
    return (L_disk * xi_line / ((4 * np.pi) ** 2 * epsilon_line * mec3()) * I).to_value("")


def tau_dt(nu, z, mu_s, L_disk, xi_dt, epsilon_dt, R_dt, r, l_size, phi):
    x1 = eps(nu, z, 1, m_e)
    l = np.logspace(0, 5, l_size) * r
    P, L, X = ax(phi, 0, 3), ax(l, 1, 3), ax(x1, 2, 3)
    d = np.sqrt(R_dt**2 + L**2)
    cp = cospsi(mu_s, L / d, P)
    f = (1 - cp) / d**2 * sigma_gg(X * epsilon_dt * (1 - cp) / 2)
    I = np.trapz(np.trapz(f, phi, axis=0), l, axis=0)
    return (L_disk * xi_dt / (8 * np.pi**2 * epsilon_dt * mec3()) * I).to_value("")


def vec_ring(R, r, phi_re, path, mu_s):
    """from the element of the ring to the photon, photon moving in the xz plane"""
    sin_s = np.sqrt(1 - mu_s**2)
    return path * sin_s - R * np.cos(phi_re), -R * np.sin(phi_re), r + path * mu_s


def vec_shell(R, r, phi_re, mu_re, path, mu_s):
    sin_s, sin_re = np.sqrt(1 - mu_s**2), np.sqrt(1 - mu_re**2)
    return path * sin_s - R * sin_re * np.cos(phi_re), -R * sin_re * np.sin(phi_re), r + path * mu_s - R * mu_re


def length(v):
    return np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


def azimuth(v):
    return np.arctan2(v[1], v[0])


def tau_dt_off(nu, z, mu_s, L_disk, xi_dt, epsilon_dt, R_dt, r, u_size, phi):
    x1 = eps(nu, z, 1, m_e)
    path = np.logspace(-5, 5, u_size) * r
    P, U, X = ax(phi, 0, 3), ax(path, 1, 3), ax(x1, 2, 3)
    v = vec_ring(R_dt, r, P, U, mu_s)
    d = length(v)
    cp = cospsi(mu_s, v[2] / d, azimuth(v))
    f = (1 - cp) / d**2 * sigma_gg(X * epsilon_dt * (1 - cp) / 2)
    I = np.trapz(np.trapz(f, phi, axis=0), path, axis=0)
    return (L_disk * xi_dt / (8 * np.pi**2 * epsilon_dt * mec3()) * I).to_value("")


def tau_blr_off(nu, z, mu_s, L_disk, xi_line, epsilon_line, R_line, r, path, mu, phi):
    """path: distances from the emission region (moved off the shell)"""
    x1 = eps(nu, z, 1, m_e)
    M, P, U, X = ax(mu, 0, 4), ax(phi, 1, 4), ax(path, 2, 4), ax(x1, 3, 4)
    v = vec_shell(R_line, r, P, M, U, mu_s)
    d = length(v)
    cp = cospsi(mu_s, v[2] / d, azimuth(v))
    f = (1 - cp) / d**2 * sigma_gg(X * epsilon_line * (1 - cp) / 2)
    I = np.trapz(np.trapz(np.trapz(f, mu, axis=0), phi, axis=0), path, axis=0)
    return (L_disk * xi_line / ((4 * np.pi) ** 2 * epsilon_line * mec3()) * I).to_value("")


def path_blr(mu_s, R_line, r, u_size):
    """distances travelled, none of them on the shell"""
    path = np.logspace(-5, 5, u_size) * r
    cross = np.sqrt(r**2 + path**2 + 2 * path * r * mu_s)
    hit = np.abs(cross - R_line) <= MIN_DIST * R_line
    moved = np.sort(np.where(hit, path + MIN_DIST * R_line, path))
    if hit.any():
        return moved
    return path


def tau_synch(nu, z, d_L, delta_D, B, R_b, n, dn, gmin, gmax, gamma, n_nu, margin):
    x1 = eps(nu, z, delta_D, m_e)
    lo = (nu_peak(B, gmin, m_e) * margin).to_value("Hz")
    hi = (nu_peak(B, gmax, m_e) * 100).to_value("Hz")
    f = np.logspace(np.log10(lo), np.log10(hi), n_nu) * u.Hz
    fo = f * delta_D / (1 + z)
    x = eps(fo, z, delta_D, m_e)
    sed = synch_ssa(fo, z, d_L, delta_D, B, R_b, n, dn, gamma)
    ph = 9 * d_L**2 * sed / (4 * c * R_b**2 * delta_D**4 * x**2 * m_e * c**2)
    I = np.trapz(col(ph) * sigma_gg(col(x) * row(x1) / 2), x, axis=0)
    return 2 * R_b * I


def ratio(a, b):
    return (a / b).to_value("")
