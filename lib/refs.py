"""reference cosmology / geometry computed with astropy only (no pyHalo code in here)"""
import numpy as np
import astropy.units as un
from scipy import integrate
from oracles import ARCSEC

C_KMS, G_MPC = 299792.458, 4.30091e-9   # km/s ; Mpc (km/s)^2 / Msun


def scrit(ap, z, zs):
    """Msun / Mpc^2"""
    return C_KMS ** 2 / (4 * np.pi * G_MPC) * ap.angular_diameter_distance(zs).value / (
        ap.angular_diameter_distance(z).value * ap.angular_diameter_distance_z1z2(z, zs).value)


def kpa(ap, z):
    """proper kpc per arcsec"""
    return ARCSEC * ap.angular_diameter_distance(z).value * 1e3


class Shape(object):
    """angular size of the rendering volume relative to its opening angle"""

    def __init__(self, ap, zl, zs, theta, geo='DOUBLE_CONE', pad=0.95):
        self.ap, self.zl, self.zs, self.theta, self.geo, self.pad = ap, zl, zs, theta, geo, pad

    def scale(self, z):
        ap = self.ap
        if self.geo == 'CONE':
            return 1.0
        if self.geo == 'CYLINDER':
            return ap.comoving_transverse_distance(self.zl).value / ap.comoving_transverse_distance(z).value
        if z <= self.zl:
            return 1.0
        ds, dls = ap.angular_diameter_distance(self.zs).value, ap.angular_diameter_distance_z1z2(self.zl, self.zs).value
        return 1 - self.pad * (ds / dls) * ap.angular_diameter_distance_z1z2(self.zl, z).value \
            / ap.angular_diameter_distance(z).value

    def rmax_arcsec(self, z):
        return 0.5 * self.theta * self.scale(z)

    def area(self, z):
        """proper area [Mpc^2]"""
        return np.pi * (self.rmax_arcsec(z) * ARCSEC * self.ap.angular_diameter_distance(z).value) ** 2

    def volume(self, z, dz):
        """comoving volume of a plane [Mpc^3]"""
        f = lambda q: np.array([self.area(x) * (1 + x) ** 2 * self.ap.hubble_distance.value / self.ap.efunc(x) for x in q])
        cut = sorted(set([z, min(max(self.zl, z), z + dz), z + dz]))
        return sum(integrate.fixed_quad(f, a, b, n=8)[0] for a, b in zip(cut[:-1], cut[1:]))


def sheth_tormen(ap, colossus_cosmo, z, lo, hi, pivot, norm=1.0, dslope=0.0):
    """(amplitude at the pivot, slope) of the power law in the documented range: colossus sheth99, comoving Mpc^-3 Msun^-1"""
    from colossus.cosmology import cosmology as cc
    from colossus.lss.mass_function import massFunction
    cc.setCurrent(colossus_cosmo)
    h = ap.h
    m = np.logspace(lo, hi, 10)
    dndm = massFunction(m * h, z, q_out='dndlnM', model='sheth99') * h ** 3 / m
    s, a = np.polyfit(np.log10(m / pivot), np.log10(dndm), 1)
    return norm * 10 ** a, s + dslope
