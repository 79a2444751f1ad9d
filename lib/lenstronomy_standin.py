"""Offline stand-in for the parts of lenstronomy that pyHalo imports.

lenstronomy is not installed in this sandbox, and most of pyHalo imports it at module level.  This file
implements, from the published formulae, the classes/functions pyHalo calls (mass profiles, NFW parameters, a
small LensModel) and registers them in sys.modules *only if the real package is missing*.  Nothing of pyHalo
is replaced: the code being monitored is the code in /repo.

Conventions follow lenstronomy: lensing quantities in units of the critical surface density and arcsec;
TNFW.mass_3d takes tau = r_trunc/Rs as 4th argument; TNFW's alpha_Rs is that of the untruncated NFW.
Also usable as a pytest plugin (pytest -p lenstronomy_standin).
"""
import importlib.machinery
import importlib.util
import sys
import types
import numpy as np

_ARCSEC = 2 * np.pi / 360 / 3600
_GLX, _GLW = np.polynomial.legendre.leggauss(24)


def _compose(a, b, nseg):
    """composite Gauss-Legendre nodes/weights on [a, b] (arrays broadcast on the last axis)"""
    a = np.asarray(a, float)[..., None, None]
    b = np.asarray(b, float)[..., None, None]
    i = np.arange(nseg)[:, None]
    h = (b - a) / nseg
    x = a + h * (i + 0.5 * (_GLX + 1))
    w = 0.5 * h * _GLW * np.ones_like(x)
    sh = x.shape[:-2] + (nseg * len(_GLX),)
    return x.reshape(sh), w.reshape(sh)


class _Spherical(object):
    """a spherical profile given by _rho(r, *args) (args = density parametrisation)"""
    rmax_factor = 1e6

    def _rho(self, r, *args):
        raise NotImplementedError

    def _m3d(self, R, *args):
        R = np.asarray(R, float)
        s, w = _compose(np.log(R) - 25.0, np.log(R), 12)
        r = np.exp(s)
        return np.sum(4 * np.pi * r ** 3 * self._rho(r, *args) * w, axis=-1)

    def _sigma(self, R, *args):
        R = np.asarray(R, float)
        t, w = _compose(np.zeros_like(R), 32.0 * np.ones_like(R), 16)
        r = R[..., None] * np.cosh(t)
        return 2 * np.sum(self._rho(r, *args) * r * w, axis=-1)

    def _m2d(self, R, *args):
        R = np.asarray(R, float)
        m = self._m3d(R, *args)
        # int_R^inf 4 pi r^2 rho (1 - sqrt(1-R^2/r^2)) dr with r = R cosh t
        t, w = _compose(np.zeros_like(R), 32.0 * np.ones_like(R), 16)
        ch = np.cosh(t)
        r = R[..., None] * ch
        one_minus = 1.0 / (ch ** 2 * (1 + np.tanh(t)))
        # dr = R sinh t dt
        return m + np.sum(4 * np.pi * r ** 2 * self._rho(r, *args) * one_minus * R[..., None] * np.sinh(t) * w, axis=-1)

    def _radial(self, func, R, *args):
        """evaluate func on possibly large grids via log-log interpolation"""
        R = np.maximum(np.abs(np.asarray(R, float)), 1e-9)
        if R.size > 400:
            lo, hi = np.log(R.min()) - 1e-6, np.log(R.max()) + 1e-6
            g = np.linspace(lo, hi, 256)
            v = func(np.exp(g), *args)
            from scipy.interpolate import CubicSpline
            sgn = np.sign(v[0]) if v[0] != 0 else 1.0
            if np.all(v * sgn > 0):
                return sgn * np.exp(CubicSpline(g, np.log(v * sgn))(np.log(R)))
            return CubicSpline(g, v)(np.log(R))
        return func(R, *args)

    def _to_density(self, *args, **kw):
        """lensing parametrisation -> density parametrisation (identity unless overridden)"""
        return args

    # -- lensing
    def derivatives(self, x, y, *args, center_x=0, center_y=0, **kw):
        p = self._pars(args, kw)
        dx, dy = np.asarray(x, float) - center_x, np.asarray(y, float) - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-9)
        a = self._radial(self._m2d, R, *p) / np.pi / R
        return a * dx / R, a * dy / R

    def hessian(self, x, y, *args, center_x=0, center_y=0, **kw):
        p = self._pars(args, kw)
        dx, dy = np.asarray(x, float) - center_x, np.asarray(y, float) - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-9)
        m = self._radial(self._m2d, R, *p)
        kappa = self._radial(self._sigma, R, *p)
        kbar = m / np.pi / R ** 2
        g = kbar - kappa
        c2, s2 = (dx ** 2 - dy ** 2) / R ** 2, 2 * dx * dy / R ** 2
        fxx, fyy, fxy = kappa - g * c2, kappa + g * c2, -g * s2
        return fxx, fxy, fxy, fyy

    lens_names = ()

    def _pars(self, args, kw):
        vals = list(args) + [kw[n] for n in self.lens_names[len(args):]]
        return self._to_density(*vals)


class NFW(_Spherical):
    lens_names = ('Rs', 'alpha_Rs')
    profile_name = 'NFW'

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def alpha2rho0(alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    @staticmethod
    def rho02alpha(rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))

    def _to_density(self, Rs, alpha_Rs):
        return Rs, self.alpha2rho0(alpha_Rs, Rs)

    def _rho(self, r, Rs, rho0):
        return rho0 / (r / Rs * (1 + r / Rs) ** 2)

    def density(self, R, Rs, rho0):
        return self._rho(np.asarray(R, float) if not np.isscalar(R) else R, Rs, rho0)

    def density_lens(self, r, Rs, alpha_Rs, center_x=0, center_y=0):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def mass_3d(self, r, Rs, rho0):
        x = r / Rs
        return 4. * np.pi * rho0 * Rs ** 3 * (np.log1p(x) - x / (1. + x))

    def mass_3d_lens(self, r, Rs, alpha_Rs, center_x=0, center_y=0):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def density_2d(self, x, y, Rs, rho0, center_x=0, center_y=0):
        R = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
        return self._sigma(np.maximum(R, 1e-9), Rs, rho0)

    def mass_2d(self, R, Rs, rho0):
        return self._m2d(R, Rs, rho0)


class TNFW(_Spherical):
    lens_names = ('Rs', 'alpha_Rs', 'r_trunc')
    profile_name = 'TNFW'

    def __init__(self, *a, **k):
        pass

    alpha2rho0 = staticmethod(NFW.alpha2rho0)
    rho02alpha = staticmethod(NFW.rho02alpha)

    def _to_density(self, Rs, alpha_Rs, r_trunc):
        return Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc

    def _rho(self, r, Rs, rho0, r_trunc):
        return rho0 / (r / Rs * (1 + r / Rs) ** 2) * r_trunc ** 2 / (r ** 2 + r_trunc ** 2)

    def density(self, r, Rs, rho0, r_trunc):
        return self._rho(r, Rs, rho0, r_trunc)

    def density_lens(self, r, Rs, alpha_Rs, r_trunc, center_x=0, center_y=0):
        return self._rho(r, Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc)

    def mass_3d(self, r, Rs, rho0, r_trunc):
        # r_trunc here is tau = r_trunc / Rs, as in lenstronomy
        x = r / Rs
        t = r_trunc
        func = (t ** 2 * (-2 * x * (1 + t ** 2) + 4 * (1 + x) * t * np.arctan(x / t)
                          + 2 * (1 + x) * (-1 + t ** 2) * np.log1p(x)
                          + 2 * (1 + x) * (-1 + t ** 2) * np.log(t)
                          - (1 + x) * (-1 + t ** 2) * np.log(x ** 2 + t ** 2))
                ) / (2. * (1 + x) * (1 + t ** 2) ** 2)
        return 4 * np.pi * Rs ** 3 * rho0 * func

    def density_2d(self, x, y, Rs, rho0, r_trunc, center_x=0, center_y=0):
        R = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
        return self._sigma(np.maximum(R, 1e-9), Rs, rho0, r_trunc)

    def mass_2d(self, R, Rs, rho0, r_trunc):
        return self._m2d(R, Rs, rho0, r_trunc)


class CNFW(_Spherical):
    lens_names = ('Rs', 'alpha_Rs', 'r_core')
    profile_name = 'CNFW'

    def __init__(self, *a, **k):
        pass

    def alpha2rho0(self, alpha_Rs, Rs, r_core):
        m1 = self._m2d(np.asarray(Rs, float), Rs, 1.0, r_core)
        return alpha_Rs * np.pi * Rs / m1

    def _to_density(self, Rs, alpha_Rs, r_core):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core

    def _rho(self, r, Rs, rho0, b):
        return rho0 * Rs ** 3 / ((b + r) * (Rs + r) ** 2)

    def density(self, R, Rs, rho0, r_core):
        return self._rho(R, Rs, rho0, r_core)

    def density_lens(self, R, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        return self._rho(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def mass_3d(self, R, Rs, rho0, r_core):
        return self._m3d(R, Rs, rho0, r_core)

    def mass_3d_lens(self, R, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        return self._m3d(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def density_2d(self, x, y, Rs, rho0, r_core, center_x=0, center_y=0):
        R = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
        return self._sigma(np.maximum(R, 1e-9), Rs, rho0, r_core)

    def mass_2d(self, R, Rs, rho0, r_core):
        return self._m2d(R, Rs, rho0, r_core)


class TNFWC(_Spherical):
    lens_names = ('Rs', 'alpha_Rs', 'r_core', 'r_trunc')
    profile_name = 'TNFWC'

    def __init__(self, *a, **k):
        pass

    def alpha2rho0(self, alpha_Rs, Rs, r_core, r_trunc):
        return alpha_Rs * np.pi * Rs / self._m2d(np.asarray(Rs, float), Rs, 1.0, r_core, r_trunc)

    def _to_density(self, Rs, alpha_Rs, r_core, r_trunc):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc

    def _rho(self, r, Rs, rho0, rc, rt):
        return rho0 * Rs ** 3 / (np.sqrt(rc ** 2 + r ** 2) * (Rs ** 2 + r ** 2)) * rt ** 2 / (r ** 2 + rt ** 2)

    def density(self, r, Rs, rho0, r_core, r_trunc):
        return self._rho(r, Rs, rho0, r_core, r_trunc)

    def density_lens(self, r, Rs, alpha_Rs, r_core, r_trunc, center_x=0, center_y=0):
        return self._rho(r, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc)

    def mass_3d(self, r, Rs, rho0, r_core, r_trunc):
        return self._m3d(r, Rs, rho0, r_core, r_trunc)


class PseudoDoublePowerlaw(_Spherical):
    lens_names = ('Rs', 'alpha_Rs', 'gamma_inner', 'gamma_outer')
    profile_name = 'PSEUDO_DOUBLE_POWERLAW'

    def _rho(self, r, Rs, rho0, gi, go):
        x = r / Rs
        return rho0 / (x ** gi * (1 + x ** 2) ** ((go - gi) / 2.))

    def rho02alpha(self, rho0, Rs, gamma_inner, gamma_outer):
        return float(self._m2d(np.asarray(Rs, float), Rs, rho0, gamma_inner, gamma_outer)) / np.pi / Rs

    def alpha2rho0(self, alpha_Rs, Rs, gamma_inner, gamma_outer):
        return alpha_Rs / self.rho02alpha(1.0, Rs, gamma_inner, gamma_outer)

    def _to_density(self, Rs, alpha_Rs, gi, go):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, gi, go), gi, go

    def density(self, R, Rs, rho0, gamma_inner, gamma_outer):
        return self._rho(R, Rs, rho0, gamma_inner, gamma_outer)

    def density_lens(self, R, Rs, alpha_Rs, gamma_inner, gamma_outer, center_x=0, center_y=0):
        return self._rho(R, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer), gamma_inner, gamma_outer)

    def mass_3d(self, R, Rs, rho0, gamma_inner, gamma_outer):
        return self._m3d(R, Rs, rho0, gamma_inner, gamma_outer)

    def mass_3d_lens(self, R, Rs, alpha_Rs, gamma_inner, gamma_outer, center_x=0, center_y=0):
        return self._m3d(R, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer), gamma_inner, gamma_outer)


class SPLCORE(_Spherical):
    lens_names = ('sigma0', 'r_core', 'gamma')
    profile_name = 'SPL_CORE'

    def _to_density(self, sigma0, r_core, gamma):
        return sigma0 / r_core, r_core, gamma

    def _rho(self, r, rho0, rc, gamma):
        return rho0 * (rc ** 2 / (rc ** 2 + r ** 2)) ** (gamma / 2.)

    def density(self, r, rho0, r_core, gamma):
        return self._rho(r, rho0, r_core, gamma)

    def density_lens(self, r, sigma0, r_core, gamma, center_x=0, center_y=0):
        return self._rho(r, sigma0 / r_core, r_core, gamma)

    def mass_3d(self, r, rho0, r_core, gamma):
        return self._m3d(r, rho0, r_core, gamma)

    def mass_3d_lens(self, r, sigma0, r_core, gamma, center_x=0, center_y=0):
        return self._m3d(r, sigma0 / r_core, r_core, gamma)

    def density_2d(self, x, y, rho0, r_core, gamma, center_x=0, center_y=0):
        R = np.sqrt((np.asarray(x) - center_x) ** 2 + (np.asarray(y) - center_y) ** 2)
        return self._sigma(np.maximum(R, 1e-9), rho0, r_core, gamma)

    def mass_2d(self, R, rho0, r_core, gamma):
        return self._m2d(R, rho0, r_core, gamma)


class PseudoJaffe(_Spherical):
    lens_names = ('sigma0', 'Ra', 'Rs')
    profile_name = 'PJAFFE'

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def rho2sigma(rho0, Ra, Rs):
        return np.pi * rho0 * Ra * Rs / (Rs + Ra)

    @staticmethod
    def sigma2rho(sigma0, Ra, Rs):
        return (Rs + Ra) / Ra / Rs / np.pi * sigma0

    def _to_density(self, sigma0, Ra, Rs):
        return self.sigma2rho(sigma0, Ra, Rs), Ra, Rs

    def _rho(self, r, rho0, Ra, Rs):
        return rho0 / ((1 + (r / Ra) ** 2) * (1 + (r / Rs) ** 2))

    def density(self, r, rho0, Ra, Rs):
        return self._rho(r, rho0, Ra, Rs)

    def mass_3d(self, r, rho0, Ra, Rs):
        return 4 * np.pi * rho0 * Ra ** 2 * Rs ** 2 / (Rs ** 2 - Ra ** 2) * (
            Rs * np.arctan(r / Rs) - Ra * np.arctan(r / Ra))

    def mass_2d(self, r, rho0, Ra, Rs):
        return self._m2d(r, rho0, Ra, Rs)

    def density_2d(self, x, y, rho0, Ra, Rs, center_x=0, center_y=0):
        R = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
        return self._sigma(np.maximum(R, 1e-9), rho0, Ra, Rs)


class Gaussian(object):
    profile_name = 'GAUSSIAN'

    def __init__(self, *a, **k):
        pass

    def density(self, r, amp, sigma_x, sigma_y=None):
        return amp / (2 * np.pi * sigma_x ** 2) ** 1.5 * np.exp(-r ** 2 / 2 / sigma_x ** 2)

    def density_2d(self, x, y, amp, sigma_x, sigma_y=None, center_x=0, center_y=0):
        R2 = (x - center_x) ** 2 + (y - center_y) ** 2
        return amp / (2 * np.pi * sigma_x ** 2) * np.exp(-R2 / 2 / sigma_x ** 2)

    def derivatives(self, x, y, amp, sigma, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        a = amp * (1 - np.exp(-R ** 2 / 2 / sigma ** 2)) / np.pi / R
        return a * dx / R, a * dy / R

    def hessian(self, x, y, amp, sigma, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        kappa = self.density_2d(dx, dy, amp, sigma)
        kbar = amp * (1 - np.exp(-R ** 2 / 2 / sigma ** 2)) / np.pi / R ** 2
        g = kbar - kappa
        c2, s2 = (dx ** 2 - dy ** 2) / R ** 2, 2 * dx * dy / R ** 2
        return kappa - g * c2, -g * s2, -g * s2, kappa + g * c2


class SIS(object):
    profile_name = 'SIS'

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def rho2theta(rho0):
        return np.pi * 2 * rho0

    @staticmethod
    def theta2rho(theta_E):
        return theta_E / (np.pi * 2)

    def mass_3d(self, r, rho0):
        return 4 * np.pi * rho0 * r

    def mass_3d_lens(self, r, theta_E):
        return self.mass_3d(r, self.theta2rho(theta_E))

    def density(self, r, rho0):
        return rho0 / r ** 2

    def density_lens(self, r, theta_E):
        return self.density(r, self.theta2rho(theta_E))

    def density_2d(self, x, y, rho0, center_x=0, center_y=0):
        return np.pi * rho0 / np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)

    def mass_2d(self, r, rho0):
        return 2 * np.pi ** 2 * rho0 * r

    def derivatives(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        return theta_E * dx / R, theta_E * dy / R

    def hessian(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        p = theta_E / R ** 3
        return dy ** 2 * p, -dx * dy * p, -dx * dy * p, dx ** 2 * p


class EPL(object):
    """only used as a smooth macromodel: circularised with the right monopole"""

    def __init__(self, *a, **k):
        pass

    def derivatives(self, x, y, theta_E, gamma, e1=0, e2=0, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        a = theta_E * (R / theta_E) ** (2 - gamma)
        return a * dx / R, a * dy / R

    def hessian(self, x, y, theta_E, gamma, e1=0, e2=0, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-12)
        kbar = (R / theta_E) ** (1 - gamma)
        kappa = kbar * (3 - gamma) / 2
        g = kbar - kappa
        c2, s2 = (dx ** 2 - dy ** 2) / R ** 2, 2 * dx * dy / R ** 2
        return kappa - g * c2, -g * s2, -g * s2, kappa + g * c2


class Shear(object):
    def __init__(self, *a, **k):
        pass

    def derivatives(self, x, y, gamma1, gamma2, ra_0=0, dec_0=0):
        dx, dy = x - ra_0, y - dec_0
        return gamma1 * dx + gamma2 * dy, gamma2 * dx - gamma1 * dy

    def hessian(self, x, y, gamma1, gamma2, ra_0=0, dec_0=0):
        o = np.ones_like(np.asarray(x, float))
        return gamma1 * o, gamma2 * o, gamma2 * o, -gamma1 * o


class Convergence(object):
    def __init__(self, *a, **k):
        pass

    def derivatives(self, x, y, kappa, ra_0=0, dec_0=0):
        return kappa * (x - ra_0), kappa * (y - dec_0)

    def hessian(self, x, y, kappa, ra_0=0, dec_0=0):
        o = np.ones_like(np.asarray(x, float))
        return kappa * o, 0 * o, 0 * o, kappa * o


class PointMass(object):
    def __init__(self, *a, **k):
        pass

    def derivatives(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R2 = np.maximum(dx ** 2 + dy ** 2, 1e-20)
        return theta_E ** 2 * dx / R2, theta_E ** 2 * dy / R2

    def hessian(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        R2 = np.maximum(dx ** 2 + dy ** 2, 1e-20)
        C = theta_E ** 2
        fxx = C * (dy ** 2 - dx ** 2) / R2 ** 2
        fxy = -C * 2 * dx * dy / R2 ** 2
        return fxx, fxy, fxy, -fxx


class Uldm(_Spherical):
    lens_names = ('kappa_0', 'theta_c')
    profile_name = 'ULDM'

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def _a_factor(slope=8):
        return 0.5 ** (-1. / slope) - 1

    @classmethod
    def rhotilde(cls, kappa_0, theta_c, slope=8):
        from scipy.special import gamma as G
        a = np.sqrt(cls._a_factor(slope)) / theta_c
        return kappa_0 * a * G(slope) / (np.sqrt(np.pi) * G(slope - 0.5))

    def _to_density(self, kappa_0, theta_c, slope=8):
        return self.rhotilde(kappa_0, theta_c, slope), theta_c, slope

    def _rho(self, r, rho0, theta_c, slope):
        return rho0 * (1 + self._a_factor(slope) * (r / theta_c) ** 2) ** (-slope)

    def density(self, R, rho0, theta_c, slope=8):
        return self._rho(R, rho0, theta_c, slope)

    def density_lens(self, r, kappa_0, theta_c, slope=8):
        return self._rho(r, self.rhotilde(kappa_0, theta_c, slope), theta_c, slope)

    def mass_3d(self, R, rho0, theta_c, slope=8):
        return self._m3d(R, rho0, theta_c, slope)

    def mass_3d_lens(self, r, kappa_0, theta_c, slope=8):
        return self._m3d(r, self.rhotilde(kappa_0, theta_c, slope), theta_c, slope)


class CoreCollapsedHalo(object):
    def __init__(self, *a, **k):
        self._inner = PseudoDoublePowerlaw()
        self._outer = TNFW()

    def derivatives(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner,
                    gamma_outer, center_x=0, center_y=0):
        a = self._inner.derivatives(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer,
                                    center_x=center_x, center_y=center_y)
        b = self._outer.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        return a[0] + b[0], a[1] + b[1]

    def hessian(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner,
                gamma_outer, center_x=0, center_y=0):
        a = self._inner.hessian(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer,
                                center_x=center_x, center_y=center_y)
        b = self._outer.hessian(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        return tuple(p + q for p, q in zip(a, b))


class CoreCollapsedHaloBH(object):
    def __init__(self, *a, **k):
        self._inner = PointMass()
        self._outer = TNFW()

    def derivatives(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0, **kw):
        a = self._inner.derivatives(x, y, theta_E_inner, center_x=center_x, center_y=center_y)
        b = self._outer.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        return a[0] + b[0], a[1] + b[1]

    def hessian(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0, **kw):
        a = self._inner.hessian(x, y, theta_E_inner, center_x=center_x, center_y=center_y)
        b = self._outer.hessian(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        return tuple(p + q for p, q in zip(a, b))


class NFWParam(object):
    rhoc = 2.77536627e11  # h^2 M_sun / Mpc^3

    def __init__(self, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.cosmo = cosmo

    def rhoc_z(self, z):
        return self.rhoc * (self.cosmo.efunc(z)) ** 2

    @staticmethod
    def M200(rs, rho0, c):
        return 4 * np.pi * rho0 * rs ** 3 * (np.log(1. + c) - c / (1. + c))

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1. / 3.)

    def M_r200(self, r200, z):
        return self.rhoc_z(z) * 200 * r200 ** 3 * 4 * np.pi / 3.

    def rho0_c(self, c, z):
        return 200. / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1. + c) - c / (1. + c))


class LensCosmo(object):
    """reference conversions used only by the repository's tests"""
    M_sun, G, c, Mpc = 1.98855e30, 6.67384e-11, 299792458.0, 3.08567758e22

    def __init__(self, z_lens, z_source, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.z_lens, self.z_source, self._cosmo = z_lens, z_source, cosmo
        self.h = cosmo.H0.value / 100
        self.dd = cosmo.angular_diameter_distance(z_lens).value
        self.ds = cosmo.angular_diameter_distance(z_source).value
        self.dds = cosmo.angular_diameter_distance_z1z2(z_lens, z_source).value
        self.nfw_param = NFWParam(cosmo)

    @property
    def sigma_crit(self):
        factor = self.c ** 2 / (4 * np.pi * self.G) * self.Mpc / self.M_sun
        return self.ds / (self.dd * self.dds) * factor

    @property
    def sigma_crit_angle(self):
        return self.sigma_crit * (self.dd * _ARCSEC) ** 2

    def phys2arcsec_lens(self, phys):
        return phys / self.dd / _ARCSEC

    def arcsec2phys_lens(self, a):
        return a * self.dd * _ARCSEC

    def nfw_angle2physical(self, Rs_angle, alpha_Rs):
        Rs = Rs_angle * _ARCSEC * self.dd
        theta_scaled = alpha_Rs * self.sigma_crit * self.dd * _ARCSEC
        rho0 = theta_scaled / (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
        rho0_com = rho0 / self.h ** 2
        from scipy.optimize import brentq
        c = brentq(lambda c: self.nfw_param.rho0_c(c, self.z_lens) - rho0_com, 1e-3, 1e5)
        r200 = c * Rs
        M200 = NFWParam.M200(Rs, rho0, c)
        return rho0, Rs, c, r200, M200

    def nfwParam_physical(self, M, c):
        r200 = self.nfw_param.r200_M(M * self.h, self.z_lens) / self.h
        rho0 = self.nfw_param.rho0_c(c, self.z_lens) * self.h ** 2
        return rho0, r200 / c, r200

    def nfw_physical2angle(self, M, c):
        rho0, Rs, r200 = self.nfwParam_physical(M, c)
        Rs_angle = Rs / self.dd / _ARCSEC
        alpha_Rs = rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
        return Rs_angle, alpha_Rs / self.sigma_crit / self.dd / _ARCSEC

    def sis_theta_E2sigma_v(self, theta_E):
        return np.sqrt(theta_E * _ARCSEC / (4 * np.pi) * self.ds / self.dds) * self.c / 1000

    def sis_sigma_v2theta_E(self, v_sigma):
        return 4 * np.pi * (v_sigma * 1000. / self.c) ** 2 * self.dds / self.ds / _ARCSEC


_PROFILES = {'SIS': SIS, 'EPL': EPL, 'SHEAR': Shear, 'NFW': NFW, 'TNFW': TNFW, 'CNFW': CNFW, 'TNFWC': TNFWC,
             'POINT_MASS': PointMass, 'CONVERGENCE': Convergence, 'SPL_CORE': SPLCORE, 'PJAFFE': PseudoJaffe,
             'GAUSSIAN_KAPPA': Gaussian, 'GAUSSIAN': Gaussian, 'ULDM': Uldm, 'NFW_CORE_TRUNC': TNFWC,
             'GNFW': PseudoDoublePowerlaw, 'PSEUDO_DPL': PseudoDoublePowerlaw,
             'PSEUDO_DOUBLE_POWERLAW': PseudoDoublePowerlaw,
             'CORE_COLLAPSED_HALO': CoreCollapsedHalo, 'CORE_COLLAPSED_HALO_BH': CoreCollapsedHaloBH}


class _MultiPlane(object):
    def __init__(self, funcs, zlist, zsource, cosmo):
        self.func_list, self._zlist, self._zs, self._cosmo = funcs, list(zlist), zsource, cosmo
        self._sorted = np.argsort(self._zlist, kind='stable')

    def _T(self, z):
        return 0.0 if z <= 0 else self._cosmo.comoving_transverse_distance(z).value

    def _Tij(self, z1, z2):
        if z2 <= z1:
            return 0.0
        return self._cosmo._comoving_transverse_distance_z1z2(z1, z2).value if hasattr(
            self._cosmo, '_comoving_transverse_distance_z1z2') else self._T(z2) - self._T(z1)

    def ray_shooting_partial_comoving(self, x, y, alpha_x, alpha_y, z_start, z_stop, kwargs_lens,
                                      include_z_start=False, **kw):
        x, y = np.array(x, float), np.array(y, float)
        ax, ay = np.array(alpha_x, float), np.array(alpha_y, float)
        z = z_start
        for i in self._sorted:
            zl = self._zlist[i]
            ok = zl >= z_start if include_z_start else zl > z_start
            if ok and zl <= z_stop:
                dT = self._Tij(z, zl)
                x, y = x + ax * dT, y + ay * dT
                T = self._T(zl)
                dx, dy = self.func_list[i].derivatives(x / T, y / T, **kwargs_lens[i])
                fac = self._T(self._zs) / self._Tij(zl, self._zs) if zl < self._zs else 0.0
                ax, ay = ax - dx * fac, ay - dy * fac
                z = zl
        dT = self._Tij(z, z_stop)
        return x + ax * dT, y + ay * dT, ax, ay

    def ray_shooting(self, x, y, kwargs):
        X, Y, _, _ = self.ray_shooting_partial_comoving(0 * x, 0 * y, x, y, 0.0, self._zs, kwargs)
        T = self._T(self._zs)
        return X / T, Y / T


class _SinglePlane(object):
    def __init__(self, funcs):
        self.func_list = funcs

    def ray_shooting(self, x, y, kwargs):
        ax, ay = 0.0, 0.0
        for f, k in zip(self.func_list, kwargs):
            d = f.derivatives(x, y, **k)
            ax, ay = ax + d[0], ay + d[1]
        return x - ax, y - ay


class LensModel(object):
    def __init__(self, lens_model_list, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None,
                 multi_plane=False, numerical_alpha_class=None, observed_convention_index=None, **kw):
        self.lens_model_list = lens_model_list
        self.redshift_list = lens_redshift_list
        self.z_source = z_source
        self.multi_plane = multi_plane
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.cosmo = cosmo
        cache = {}
        funcs = []
        for name in lens_model_list:
            if name not in cache:
                cache[name] = _PROFILES[name]()
            funcs.append(cache[name])
        self._funcs = funcs
        self.lens_model = _MultiPlane(funcs, lens_redshift_list, z_source, cosmo) if multi_plane \
            else _SinglePlane(funcs)

    def ray_shooting(self, x, y, kwargs):
        return self.lens_model.ray_shooting(x, y, kwargs)

    def hessian(self, x, y, kwargs):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if not self.multi_plane:
            out = None
            for f, k in zip(self._funcs, kwargs):
                h = f.hessian(x, y, **k)
                out = h if out is None else tuple(a + b for a, b in zip(out, h))
            return out
        d = 1e-5
        bx1, by1 = self.ray_shooting(x + d / 2, y, kwargs)
        bx0, by0 = self.ray_shooting(x - d / 2, y, kwargs)
        cx1, cy1 = self.ray_shooting(x, y + d / 2, kwargs)
        cx0, cy0 = self.ray_shooting(x, y - d / 2, kwargs)
        return 1 - (bx1 - bx0) / d, -(cx1 - cx0) / d, -(by1 - by0) / d, 1 - (cy1 - cy0) / d

    def kappa(self, x, y, kwargs):
        fxx, _, _, fyy = self.hessian(x, y, kwargs)
        return 0.5 * (fxx + fyy)

    def magnification(self, x, y, kwargs):
        fxx, fxy, fyx, fyy = self.hessian(x, y, kwargs)
        return 1. / ((1 - fxx) * (1 - fyy) - fxy * fyx)


class LensModelExtensions(object):
    def __init__(self, lensModel):
        self._lensModel = lensModel

    def critical_curve_caustics(self, *a, **k):
        return [], [], [], []


def azimuthal_average(image, center=None):
    image = np.asarray(image)
    y, x = np.indices(image.shape)
    if center is None:
        center = np.array([(x.max() - x.min()) / 2.0, (y.max() - y.min()) / 2.0])
    r = np.hypot(x - center[0], y - center[1]).astype(int).ravel()
    tb = np.bincount(r, image.ravel())
    nr = np.bincount(r)
    return tb / nr, np.arange(len(tb)) + 0.5


def install(force=False):
    """register the stand-in; returns 'real' or 'stand-in'"""
    if 'lenstronomy' in sys.modules and not force:
        return getattr(sys.modules['lenstronomy'], '__pyhalo_verif__', 'real')
    if not force:
        try:
            if importlib.util.find_spec('lenstronomy') is not None:
                return 'real'
        except Exception:
            pass

    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__spec__ = importlib.machinery.ModuleSpec(name, None, is_package=True)
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            setattr(sys.modules[parent], child, m)
        return m

    mod('lenstronomy', __pyhalo_verif__='stand-in', __version__='standin')
    mod('lenstronomy.Cosmo')
    mod('lenstronomy.Cosmo.nfw_param', NFWParam=NFWParam)
    mod('lenstronomy.Cosmo.lens_cosmo', LensCosmo=LensCosmo)
    mod('lenstronomy.Util')
    mod('lenstronomy.Util.analysis_util', azimuthal_average=azimuthal_average)
    mod('lenstronomy.Util.constants', arcsec=_ARCSEC, Mpc=3.08567758e22, M_sun=1.98855e30, G=6.67384e-11,
        c=299792458.0)
    mod('lenstronomy.LensModel')
    mod('lenstronomy.LensModel.lens_model', LensModel=LensModel)
    mod('lenstronomy.LensModel.lens_model_extensions', LensModelExtensions=LensModelExtensions)
    mod('lenstronomy.LensModel.Profiles')
    P = 'lenstronomy.LensModel.Profiles.'
    mod(P + 'nfw', NFW=NFW)
    mod(P + 'tnfw', TNFW=TNFW)
    mod(P + 'cnfw', CNFW=CNFW)
    mod(P + 'nfw_core_truncated', TNFWC=TNFWC)
    mod(P + 'pseudo_double_powerlaw', PseudoDoublePowerlaw=PseudoDoublePowerlaw)
    mod(P + 'general_nfw', GNFW=PseudoDoublePowerlaw)
    mod(P + 'splcore', SPLCORE=SPLCORE)
    mod(P + 'pseudo_jaffe', PseudoJaffe=PseudoJaffe)
    mod(P + 'gaussian', Gaussian=Gaussian)
    mod(P + 'sis', SIS=SIS)
    mod(P + 'uldm', Uldm=Uldm)
    mod(P + 'core_collapsed_halo', CoreCollapsedHalo=CoreCollapsedHalo)
    mod(P + 'core_collapsed_halo_bh', CoreCollapsedHaloBH=CoreCollapsedHaloBH)
    try:
        import matplotlib  # noqa: F401
    except ImportError:
        m = mod('matplotlib')
        m.use = lambda *a, **k: None
        mod('matplotlib.pyplot')
        mod('matplotlib.patches')
        mod('matplotlib.colors')
    return 'stand-in'


install()
