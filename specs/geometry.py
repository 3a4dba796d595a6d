# Geometry of the photons: emission at a point of a ring or shell around the black
# hole, interaction with a gamma ray (or the emission region) at another point.
import numpy as np


def gamma_ray(r, s, mu_s):
    """position after moving by s from the height r in the direction mu_s, azimuth 0"""
    return s * np.sqrt(1 - mu_s**2), r + s * mu_s


def ring(R, phi):
    return R * np.cos(phi), R * np.sin(phi), 0 * R


def shell(R, phi, mu):
    st = np.sqrt(1 - mu**2)
    return R * st * np.cos(phi), R * st * np.sin(phi), R * mu


def dist2(src, to):
    return (to[0] - src[0]) ** 2 + src[1] ** 2 + (to[1] - src[2]) ** 2


def x_ring(R, r, phi, s, mu_s):
    return np.sqrt(dist2(ring(R, phi), gamma_ray(r, s, mu_s)))


def x_shell(R, r, phi, mu, s, mu_s):
    return np.sqrt(dist2(shell(R, phi, mu), gamma_ray(r, s, mu_s)))


def angles(src, to, x):
    return np.arctan2(0 - src[1], to[0] - src[0]), (to[1] - src[2]) / x


def angles_ring(R, r, phi, s, mu_s):
    return angles(ring(R, phi), gamma_ray(r, s, mu_s), x_ring(R, r, phi, s, mu_s))


def angles_shell(R, r, phi, mu, s, mu_s):
    return angles(shell(R, phi, mu), gamma_ray(r, s, mu_s), x_shell(R, r, phi, mu, s, mu_s))


def cos_psi(mu_s, mu, phi):
    """scalar product of the unit vectors"""
    return np.sqrt(1 - mu_s**2) * np.sqrt(1 - mu**2) * np.cos(phi) + mu_s * mu


def x_axis_shell(mu, R, r):
    return np.sqrt(R**2 * (1 - mu**2) + (r - R * mu) ** 2)


def mu_axis_shell(mu, R, r):
    return (r - R * mu) / x_axis_shell(mu, R, r)


def x_axis_ring(R, r):
    return np.sqrt(R**2 + r**2)
