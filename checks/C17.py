import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from scipy import integrate, optimize
from vf import THOROUGH, rng_for, seed_global
from worlds import World, exports, component
import refs

RULE = ('halos of every type with random mass, redshift, concentration and shape; a case is one halo: its three-dimensional density, exported '
        'lensing parameters and reported masses are integrated numerically and compared')
ROUNDS = 24 if THOROUGH else 4
G_KPC = 4.30091e-6
TR = 3e-3          # agreement of numerical integrals


def gn(x):
    return np.log1p(x) - x / (1 + x)


# documented shapes of the lens models, x in units of kpc
def nfw(r, rs):
    x = r / rs
    return 1 / (x * (1 + x) ** 2)


def tnfw(r, rs, rt):
    return nfw(r, rs) * rt ** 2 / (rt ** 2 + r ** 2)


def cnfw(r, rs, rc):
    return rs ** 3 / ((rc + r) * (rs + r) ** 2)


def tnfwc(r, rs, rc, rt):
    return 1 / (np.sqrt(rc ** 2 + r ** 2) * (rs ** 2 + r ** 2)) * rt ** 2 / (rt ** 2 + r ** 2)


def dpl(r, rs, gi, go):
    x = r / rs
    return x ** -gi * (1 + x ** 2) ** ((gi - go) / 2)


def splcore(r, rc, g):
    return (1 + (r / rc) ** 2) ** (-g / 2)


def pjaffe(r, ra, rs):
    return 1 / ((1 + (r / ra) ** 2) * (1 + (r / rs) ** 2))


def m3d(rho, R, n=3001, depth=1e-7):
    """mass within R of a density, continued as a power law below depth * R"""
    t = np.linspace(np.log(depth * R), np.log(R), n)
    r = np.exp(t)
    y = np.asarray(rho(r), float)
    slope = -np.log(y[1] / y[0]) / (t[1] - t[0])
    inner = 4 * np.pi * r[0] ** 3 * y[0] / max(3 - slope, 1e-3)
    return inner + integrate.simpson(4 * np.pi * r ** 3 * y, x=t)


def m2d(rho, R, reach=1e4, n=3001):
    """mass within the projected radius R"""
    # r = R cosh(u):  1 - sqrt(1 - (R/r)^2) = 1 - tanh(u)
    u = np.linspace(0, np.log(2 * reach), n)
    r = R * np.cosh(u)
    w = 1 - np.tanh(u)
    return m3d(rho, R) + integrate.simpson(4 * np.pi * r ** 2 * np.asarray(rho(r), float) * w * R * np.sinh(u), x=u)


def sigma2d(rho, R, reach=1e4, n=2001):
    u = np.linspace(0, np.log(2 * reach), n)
    r = R * np.cosh(u)
    return 2 * integrate.simpson(np.asarray(rho(r), float) * r, x=u)


class Probe(object):
    """one halo and everything it says about itself"""

    def __init__(self, ck, w, h, kind, lab):
        self.ck, self.w, self.h, self.kind, self.lab = ck, w, h, kind, lab
        self.kpa = refs.kpa(w.ap, h.z)
        self.scrit = refs.scrit(w.ap, h.z, w.zs) * 1e-6            # Msun / kpc^2
        self.ut = 4 * (3e-4 / h.z + 3e-4) + 2e-3 if h.z > 0.05 else 5e-2   # distances are interpolated
        self.kw = exports(h)

    def close(self, got, want, key, rtol, **d):
        return self.ck.close(got, want, key, rtol=rtol, kind=self.kind, **dict(self.lab, **d))

    def alpha(self, rho, R, alpha_kw='alpha_Rs', i=0, key='deflection_at_the_scale_radius'):
        """the exported deflection at the scale radius belongs to the density"""
        want = m2d(rho, R) / (np.pi * R * self.scrit) / self.kpa
        return self.close(self.kw[1][i][alpha_kw], want, key, TR + 2 * self.ut)

    def kappa(self, rho, radii, key='convergence_of_the_exported_profile'):
        lm = vf.LENSTRONOMY
        from lenstronomy.LensModel.lens_model import LensModel
        m = LensModel(self.kw[0])
        kws = self.kw[1]
        cx, cy = kws[0]['center_x'], kws[0]['center_y']
        for R in radii:
            got = float(m.kappa(np.array([cx + R / self.kpa]), np.array([cy]), kws)[0])
            want = sigma2d(rho, R) / self.scrit
            self.close(got, want, key, 8e-3 + 3 * self.ut, R=R)


def rho_crit(w, z):
    return w.ap.critical_density(z).to('Msun/kpc3').value


def truth(w, h, c, z_eval):
    """rhos, rs, r200 of the NFW halo with the mass and concentration of h"""
    rc = rho_crit(w, z_eval)
    r200 = (3 * h.mass / (4 * np.pi * 200 * rc)) ** (1 / 3)
    rs = r200 / c
    return h.mass / (4 * np.pi * rs ** 3 * gn(c)), rs, r200


def nfw_like(p, c, z_eval, lensing_rs='Rs'):
    """concentration, scale radius, virial radius: one definition"""
    h, w = p.h, p.w
    rhos, rs, r200 = truth(w, h, c, z_eval)
    got = h.nfw_params
    tz = 2e-3
    p.close(got[1], rs, 'scale_radius', tz)
    p.close(got[2], r200, 'virial_radius', tz)
    return rhos, rs, r200


def log_slopes(p, rho, r):
    """reported logarithmic slopes against the density itself"""
    h = p.h
    e = 1e-4
    want = np.array([np.log(rho(x * (1 + e)) / rho(x * (1 - e))) / np.log((1 + e) / (1 - e)) for x in r])
    got = [float(h.logarithmic_profile_slope(float(x))) for x in r[::3]]
    p.ck.close(got, want[::3], 'logarithmic_slope', rtol=4e-3, atol=6e-3, kind=p.kind, **p.lab)
    fine = np.geomspace(r[0] * 0.5, r[-1] * 2, 1500)
    g = np.asarray(h.logarithmic_profile_slope(fine))
    p.ck.close(np.interp(np.log(r), np.log(fine), g), want, 'logarithmic_slope', rtol=4e-3, atol=6e-3, kind=p.kind, how='array', **p.lab)


def check_nfw(p, s):
    h = p.h
    c = h.c
    rhos, rs, r200 = nfw_like(p, c, h.z_eval)
    p.close(h.nfw_params[0], rhos, 'central_density', 3e-3)
    p.close(m3d(h.density_profile_3d, r200), h.mass, 'density_integrates_to_the_mass', 5e-3)
    f = h.rescale_norm
    for x in (0.05, 0.7, c, 3 * c):
        p.close(h.mass_3d(x * rs), f * h.mass * gn(x) / gn(c), 'mass_3d', 6e-3, x=x)
    p.close(h.mass_3d('r200'), f * h.mass, 'mass_3d', 6e-3)
    rho = lambda r: f * rhos * nfw(r, rs)
    p.close(p.kw[1][0]['Rs'] * p.kpa, rs, 'exported_radii', 2e-3 + p.ut)
    p.alpha(rho, rs)
    p.kappa(rho, rs * np.array([0.05, 0.6, 3.0]))
    p.close(h.density_profile_3d(rs * 0.37, scaling=2.5), 2.5 * rhos * nfw(rs * 0.37, rs), 'density', 3e-3)
    v = np.sqrt(G_KPC * 4 * np.pi * f * rhos * rs ** 2 * gn(2.1626) / 2.1626)
    p.close(h.vmax_nfw, v, 'maximum_circular_velocity', 9e-3)
    p.ck.expect(h.profile_args == c, 'profile_args_hold_the_concentration', kind=p.kind, got=h.profile_args, c=c, **p.lab)
    log_slopes(p, lambda r: nfw(r, rs), rs * np.geomspace(0.02, 20, 7))


def check_tnfw(p, s):
    h = p.h
    rt = h.profile_args[1]
    c = h.c
    p.ck.expect(h.profile_args[0] == c, 'profile_args_hold_the_concentration', kind=p.kind, got=h.profile_args, c=c, **p.lab)
    if p.kind == 'FROM_PARAMS':
        a = s['args']
        rhos, rs, r200 = a['rhos'], a['rs'], a['rv']
        p.close(list(h.nfw_params), [rhos, rs, r200], 'given_parameters', 1e-10)
        p.close(rt, a['r_trunc_kpc'], 'given_parameters', 1e-10)
        p.close(c, a['rv'] / a['rs'], 'given_parameters', 1e-10)
        p.ck.expect(h.z_infall == a['z_infall'] and h.id == a['index'], 'given_parameters', kind=p.kind, **p.lab)
    elif p.kind == 'EMULATOR':
        rhos, rs, r200 = truth(p.w, h, c, h.z)
    else:
        rhos, rs, r200 = nfw_like(p, c, h.z_eval)
    if p.kind not in ('EMULATOR', 'FROM_PARAMS'):
        p.close(h.nfw_params[0], rhos, 'central_density', 3e-3)
    f = h.rescale_norm
    rho = lambda r: f * rhos * tnfw(r, rs, rt)
    kw = p.kw[1][0]
    p.close([kw['Rs'] * p.kpa, kw['r_trunc'] * p.kpa], [rs, rt], 'exported_radii', 2e-3 + p.ut)
    # the normalization is the deflection of the profile without truncation
    p.alpha(lambda r: f * rhos * nfw(r, rs), rs)
    p.kappa(rho, rs * np.array([0.05, 0.6, 3.0]))
    pp = h.params_physical
    p.close([pp['rhos'], pp['rs'], pp['r_trunc_kpc']], [f * rhos, rs, rt], 'params_physical', 4e-3)
    p.close(pp.get('r200', pp.get('rv')), r200, 'params_physical', 4e-3)
    if p.kind != 'EMULATOR':
        radii = rs * np.array([0.03, 0.4, 2.0, 11.0])
        p.close(h.density_profile_3d(radii) * f, rho(radii), 'density', 4e-3)
        p.close(h.density_profile_3d_lenstronomy(radii), rho(radii), 'density_of_the_exported_profile', 6e-3 + 2 * p.ut)
        for x in (0.1, 1.7, c):
            p.close(h.mass_3d(x * rs), m3d(rho, x * rs), 'mass_3d', 6e-3, x=x)
        p.close(h.mass_3d('r200'), m3d(rho, c * rs), 'mass_3d', 6e-3)
        if rt > 0.1 * c * rs:
            p.close(h.mass_2d('r200'), m2d(rho, c * rs), 'projected_mass', 1.5e-2 + 2 * p.ut, R='r200')
        v = np.sqrt(G_KPC * 4 * np.pi * f * rhos * rs ** 2 * gn(2.1626) / 2.1626)
        p.close(h.vmax_nfw, v, 'maximum_circular_velocity', 9e-3)
        R = float(rs * p.w.rng.uniform(0.3, 4))
        if rt > 0.1 * R:           # the integral starts at 3e-4 R
            p.close(h.mass_2d(R), m2d(rho, R), 'projected_mass', 1.2e-2 + 2 * p.ut, R=R)
        p.close(h.deflection_angle(R / p.kpa), m2d(rho, R) / (np.pi * R * p.scrit) / p.kpa, 'deflection_angle', 5e-3 + 2 * p.ut, R=R)
        x = rs * np.geomspace(0.02, 30, 7)
        e = 1e-4
        want = np.log(rho(x * (1 + e)) / rho(x * (1 - e))) / np.log((1 + e) / (1 - e))
        p.ck.close(h.log_profile_slope(x, rs, rt), want, 'analytic_slope', rtol=1e-5, atol=1e-5, kind=p.kind, **p.lab)
        for g in (-1.4, -2.0, -2.9, -4.3):
            r0 = h.log_derivative_inverse(g, rs, rt)
            p.ck.close(h.log_profile_slope(r0, rs, rt), g, 'radius_of_a_slope', rtol=1e-4, kind=p.kind, **p.lab)
        log_slopes(p, rho, x)
    if p.kind == 'TNFW_SUB':
        p.close(h.bound_mass, m3d(rho, c * rs), 'bound_mass_is_the_mass_within_the_infall_virial_radius', 6e-3)
    elif p.kind == 'FROM_PARAMS':
        # the mass label and the parameters are given independently: the bound fraction is that of the profile
        p.close(h.bound_mass / h.mass, m3d(lambda r: f * tnfw(r, rs, rt), c * rs) / m3d(lambda r: nfw(r, rs), c * rs),
                'bound_fraction', 6e-3)
    elif p.kind == 'EMULATOR':
        fb = s['args']['fb']
        p.close(m3d(rho, c * rs), f * fb * h.mass, 'density_integrates_to_the_given_bound_mass', 2.5e-2)


def check_cnfw(p, s):
    h = p.h
    c = h.c
    rhos, rs, r200 = nfw_like(p, c, h.z_eval)
    b, f = s['args']['beta'], h.rescale_norm
    p.ck.expect(tuple(h.profile_args) == (c, b), 'profile_args_hold_the_concentration', kind=p.kind, got=h.profile_args, **p.lab)
    kw = p.kw[1][0]
    p.close([kw['Rs'] * p.kpa, kw['r_core'] * p.kpa], [rs, b * rs], 'exported_radii', 2e-3 + p.ut)
    rho = lambda r: f * rhos * cnfw(r, rs, b * rs)
    radii = rs * np.array([0.02, 0.3, 2.0, 20.0])
    p.close(h.density_profile_3d(radii), rho(radii), 'density', 8e-3 + 2 * p.ut)
    p.alpha(rho, rs)
    p.kappa(rho, rs * np.array([0.05, 0.6, 3.0]))
    p.close(h.mass_3d(0.8 * rs), m3d(rho, 0.8 * rs), 'mass_3d', 1e-2 + 2 * p.ut)
    log_slopes(p, rho, radii[:-1])


def check_tnfwc(p, s):
    h = p.h
    c = h.c
    rhos, rs0, r200 = truth(p.w, h, c, h.z_eval)
    a = s['args']
    al, rs, rc, rt, r2 = h.profile_args
    f = h.rescale_norm
    kw = p.kw[1][0]
    p.close([kw['Rs'] * p.kpa, kw['r_core'] * p.kpa, kw['r_trunc'] * p.kpa], [rs, rc, rt], 'exported_radii', 1e-6 + p.ut)
    p.close([rt, r2], [a['rt_kpc'], r200], 'given_parameters', 3e-3)
    if p.kind == 'TNFWC':
        want_rs = 0.99 * rt if rt < a['x_core_halo'] * rs0 else a['x_core_halo'] * rs0
        p.close([rs, rc], [want_rs, 0.99 * want_rs], 'core_of_the_halo', 3e-3)
    # whatever the core, the mass within the virial radius is the one requested
    p.close(m3d(h.density_profile_3d, r200), a['mass_conservation'], 'density_integrates_to_the_given_mass', 8e-3)
    p.close(h.mass_3d(r200), a['mass_conservation'], 'mass_3d', 1.2e-2)
    shape = lambda r: tnfwc(r, rs, rc, rt)
    n = a['mass_conservation'] / m3d(shape, r200)
    rho = lambda r: n * shape(r)
    radii = rs * np.array([0.02, 0.3, 2.0, 20.0])
    p.close(h.density_profile_3d(radii), rho(radii), 'density', 1.2e-2)
    p.close(h.density_profile_3d_lenstronomy(radii), rho(radii), 'density_of_the_exported_profile', 1.2e-2)
    p.kappa(rho, rs * np.array([0.1, 0.6, 3.0]))
    R = float(rs * p.w.rng.uniform(0.5, 4))
    p.close(h.mass_2d(R), m2d(rho, R), 'projected_mass', 1.5e-2 + 2 * p.ut, R=R)
    if rt > 0.1 * r2:
        p.close(h.mass_2d('r200'), m2d(rho, r2), 'projected_mass', 2e-2 + 2 * p.ut, R='r200')
    grid = np.geomspace(0.3 * rs, 3 * rs, 60)
    sl = np.interp(np.log(rs), np.log(grid), h.log_slope_2d(grid))
    want = np.log(sigma2d(rho, 1.01 * rs) / sigma2d(rho, 0.99 * rs)) / np.log(1.01 / 0.99)
    p.ck.close(sl, want, 'projected_slope', rtol=2e-2, atol=1e-2, kind=p.kind, **p.lab)
    pp = h.params_physical
    p.close([pp['rs'], pp['r200'], pp['r_trunc_kpc'], pp['r_core_kpc']], [rs, r2, rt, rc], 'params_physical', 1e-6)


def check_gnfw(p, s):
    h = p.h
    c, gi, go = h.profile_args
    p.ck.expect(c == h.c and gi == s['args']['gamma_inner'] and go == s['args']['gamma_outer'], 'profile_args_hold_the_concentration', kind=p.kind,
                got=h.profile_args, **p.lab)
    rhos, rs, r200 = nfw_like(p, c, h.z_eval)
    kw = p.kw[1][0]
    p.close(kw['Rs'] * p.kpa, rs, 'exported_radii', 2e-3 + p.ut)
    p.ck.expect(kw['gamma_inner'] == gi and kw['gamma_outer'] == go, 'exported_slopes', kind=p.kind, **p.lab)
    xm = s['args'].get('x_match', 2.16)
    xm = c if xm == 'c' else xm
    m = s['args'].get('mass_conservation', 4 * np.pi * rs ** 3 * rhos * gn(xm))
    shape = lambda r: dpl(r, rs, gi, go)
    n = m / m3d(shape, xm * rs, depth=1e-9)
    rho = lambda r: n * shape(r)
    radii = rs * np.array([0.02, 0.3, 2.0, 20.0])
    p.close(h.density_profile_3d(radii), rho(radii), 'density', 1.2e-2 + 2 * p.ut)
    p.close(m3d(h.density_profile_3d, xm * rs, depth=1e-9), m, 'density_integrates_to_the_nfw_mass_within_the_matching_radius', 1.2e-2 + 2 * p.ut)
    if gi < 2.0:
        p.alpha(rho, rs)
    p.kappa(rho, rs * np.array([0.1, 0.6, 3.0]))
    if gi < 2:
        p.close(h.mass_3d(xm * rs), m, 'mass_3d', 1.2e-2 + 2 * p.ut)
    e = 1e-4
    want = np.log(shape(radii * (1 + e)) / shape(radii * (1 - e))) / np.log((1 + e) / (1 - e))
    p.ck.close(h.log_profile_slope(radii, rs, gi, go), want, 'analytic_slope', rtol=1e-5, atol=1e-5, kind=p.kind, **p.lab)
    log_slopes(p, rho, radii[:-1])


def check_spl(p, s):
    h = p.h
    c, g, xc = h.profile_args
    a = s['args']
    p.ck.expect(g == a['log_slope_halo'] and xc == a['x_core_halo'] and ('c' not in a or c == a['c']), 'given_parameters', kind=p.kind, got=h.profile_args, **p.lab)
    z_def = h.z if not h.is_subhalo or a.get('evaluate_mc_at_zlens') else h.z_infall
    p.ck.expect(h.z_eval == z_def, 'redshift_of_the_mass_definition', kind=p.kind, got=h.z_eval, want=z_def, **p.lab)
    rhos, rs, r200 = truth(p.w, h, c, h.z_eval)
    xm = a.get('x_match', 2.16)
    xm = c if xm == 'c' else xm
    m = 4 * np.pi * rs ** 3 * rhos * gn(xm)
    kw = p.kw[1][0]
    rc = kw['r_core'] * p.kpa
    p.close(rc, xc * rs, 'exported_radii', 2e-3 + p.ut)
    p.ck.expect(kw['gamma'] == g, 'exported_slopes', kind=p.kind, **p.lab)
    shape = lambda r: splcore(r, rc, g)
    n = m / m3d(shape, xm * rs)
    # sigma0 = rho0 * r_core in units of the critical density
    p.close(kw['sigma0'], n * rc / p.scrit, 'exported_normalization', 1e-2 + 2 * p.ut)
    p.kappa(lambda r: n * shape(r), rs * np.array([0.1, 0.6, 3.0]))


def check_gc(p, s):
    h = p.h
    a = s['args']
    rho0, size, g, rc = h.profile_args
    p.close([size, rc], [a['gc_size_pc'] * 1e-3, a['gc_size_pc'] * 1e-3 / a['gc_concentration']], 'given_parameters', 1e-9)
    shape = lambda r: splcore(r, rc, g)
    n = h.mass / m3d(shape, size)
    p.close(rho0, n, 'central_density', 5e-3)
    kw = p.kw[1][0]
    p.close(kw['r_core'] * p.kpa, rc, 'exported_radii', 1e-6 + p.ut)
    p.ck.expect(kw['gamma'] == a['gamma'], 'exported_slopes', kind=p.kind, **p.lab)
    p.close(kw['sigma0'], n * rc / p.scrit, 'exported_normalization', 1e-2 + 2 * p.ut)
    p.close(m3d(h.density_profile_3d_lenstronomy, size), h.mass, 'density_integrates_to_the_mass', 1e-2)
    rh = h.half_mass_radius * 1e-3
    p.close(m3d(shape, rh) * n, 0.5 * h.mass, 'half_mass_radius', 5e-3)
    R = rc * np.array([0.2, 1.5, 6.0])
    p.close(h.density_profile_2d_lenstronomy(R), [sigma2d(lambda r: n * shape(r), x) for x in R], 'projected_density', 1e-2)
    p.kappa(lambda r: n * shape(r), R)


def check_pjaffe(p, s):
    h = p.h
    c = h.c
    rhos, rs, r200 = truth(p.w, h, c, h.z_eval)
    kw = p.kw[1][0]
    p.close([kw['Rs'] * p.kpa, kw['Ra'] * p.kpa], [rs, 0.01 * rs], 'exported_radii', 3e-3 + p.ut)
    shape = lambda r: pjaffe(r, 0.01 * rs, rs)
    n = h.mass / m3d(shape, r200)
    p.kappa(lambda r: n * shape(r), rs * np.array([0.05, 0.6, 3.0]))
    pp = h.params_physical
    p.close([pp['rs'], pp['r200'], pp['rho'], pp['rhos']], [rs, r200, n, rhos], 'params_physical', 6e-3)


def check_bh(p, s):
    h = p.h
    d = refs.kpa(p.w.ap, h.z) / refs.ARCSEC
    # theta_E^2 = M / (pi Sigma_crit D_l^2)
    want = np.sqrt(h.mass / (np.pi * p.scrit)) / p.kpa
    p.close(p.kw[1][0]['theta_E'], want, 'einstein_radius', 3e-3 + 2 * p.ut)
    p.close(h.mass_3d(1e-3), h.mass, 'mass_3d', 0)
    p.close(h.mass_3d(d), h.mass, 'mass_3d', 0)


def check_gaussian(p, s):
    kw, a = p.kw[1][0], s['args']
    p.ck.expect(all(kw[k] == a[k] for k in ('amp', 'sigma', 'center_x', 'center_y')), 'given_parameters', kind=p.kind, got=kw, **p.lab)


def check_sis(p, s):
    h = p.h
    n = component(h, '_nfw_halo', 'nfw_params')
    c = n.c
    rhos, rs, _ = truth(p.w, n, c, n.z_eval)
    v = np.sqrt(G_KPC * 4 * np.pi * n.rescale_norm * rhos * rs ** 2 * gn(2.1626) / 2.1626)
    p.close(h.profile_args, 0.646 * v, 'velocity_dispersion', 9e-3)
    ap = p.w.ap
    want = 4 * np.pi * (0.646 * v / 299792.458) ** 2 * ap.angular_diameter_distance_z1z2(h.z, p.w.zs).value / ap.angular_diameter_distance(
        p.w.zs).value / refs.ARCSEC
    p.close(p.kw[1][0]['theta_E'], want, 'einstein_radius', 2e-2 + 2 * p.ut)
    if h.is_subhalo:
        p.close(h.bound_mass, n.bound_mass, 'bound_mass_of_the_original_halo', 1e-12)


def check_galaxy(p, s):
    h = p.h
    n = component(h, '_nfw_halo', 'nfw_params')
    f = n.rescale_norm
    rhos, rs, r200 = truth(p.w, n, n.c, n.z_eval)
    rt = n.profile_args[1]
    rad = rt if n.is_subhalo else rs
    kw = p.kw[1][0]
    p.close(kw['Rs'] * p.kpa, rad, 'exported_radii', 3e-3 + p.ut)
    p.ck.expect(kw['gamma_inner'] == 2.0 and kw['gamma_outer'] == 5.0, 'exported_slopes', kind=p.kind, **p.lab)
    m = m3d(lambda r: f * rhos * tnfw(r, rs, rt), r200)
    shape = lambda r: dpl(r, rad, 2.0, 5.0)
    nn = m / m3d(shape, r200, depth=1e-9)
    p.kappa(lambda r: nn * shape(r), rad * np.array([0.1, 0.6, 3.0]))
    p.close(m3d(h.density_profile_3d_lenstronomy, r200, depth=1e-9), m, 'density_integrates_to_the_mass_of_the_original_halo', 1e-2 + 2 * p.ut)
    if h.is_subhalo:
        p.close(h.bound_mass, n.bound_mass, 'bound_mass_of_the_original_halo', 1e-12)


def check_hybrid(p, s):
    h = p.h
    wgt = s['args']['w']
    a, b = h.tnfw_halo, h.tnfwc_halo
    rhos, rs, r200 = truth(p.w, a, a.c, a.z_eval)
    rt, f = a.profile_args[1], a.rescale_norm
    _, rs2, rc2, rt2, _ = b.profile_args
    shape = lambda r: tnfwc(r, rs2, rc2, rt2)
    n = s['args']['mass_conservation'] / m3d(shape, r200)
    rho = lambda r: (1 - wgt) * f * rhos * tnfw(r, rs, rt) + wgt * n * shape(r)
    p.ck.expect(h.c == a.c == b.c, 'profile_args_hold_the_concentration', kind=p.kind, **p.lab)
    radii = rs * np.array([0.03, 0.4, 2.0])
    p.close(h.density_profile_3d_lenstronomy(radii), rho(radii), 'density_of_the_exported_profile', 1.2e-2 + 2 * p.ut)
    if f == 1:
        p.close(h.density_profile_3d(radii), rho(radii), 'density', 1.2e-2)
    p.kappa(rho, rs * np.array([0.1, 0.6, 3.0]))


def uldm_mass(p, kws, r200):
    """mass within r200 of the exported core and halo"""
    from lenstronomy.LensModel.Profiles.cnfw import CNFW
    k = {}
    for name, q in zip(p.kw[0], kws):
        k[name] = q
    c = k['CNFW']
    rs, rc = c['Rs'] * p.kpa, c['r_core'] * p.kpa
    shape = lambda r: cnfw(r, rs, rc)
    n = c['alpha_Rs'] * p.kpa * np.pi * rs * p.scrit / m2d(shape, rs)
    th = k['ULDM']['theta_c'] * p.kpa
    sol = lambda r: (1 + 0.091 * (r / th) ** 2) ** -8
    q = k['ULDM']['kappa_0'] * p.scrit / sigma2d(sol, 1e-6 * th, reach=1e9)
    return n * m3d(shape, r200), q * m3d(sol, r200), q


def check_uldm(p, s):
    h = p.h
    c = h.c
    rhos, rs, r200 = nfw_like(p, c, h.z_eval)
    m_halo, m_core, q = uldm_mass(p, p.kw[1], r200)
    # radius of the core: Schive et al. 2014
    a, m22 = 1 / (1 + h.z), 10 ** (s['args']['log10_m_uldm'] + 22)
    om = lambda z: p.w.ap.Om(z)
    zeta = lambda z: (18 * np.pi ** 2 + 82 * (om(z) - 1) - 39 * (om(z) - 1) ** 2) / om(z)
    rc = 1.6 / m22 * a ** 0.5 * (zeta(h.z) / zeta(0)) ** (-1 / 6) * (h.mass / 1e9) ** (-s['args']['uldm_plaw'])
    k = dict(zip(p.kw[0], p.kw[1]))
    p.close(k['ULDM']['theta_c'] * p.kpa, rc, 'radius_of_the_soliton', 3e-3 + p.ut)
    p.close(k['CNFW']['Rs'] * p.kpa, rs, 'exported_radii', 3e-3 + p.ut)
    # the core and the halo share the mass budget; the fit rescales both within its bounds
    if s['args']['scale_nfw']:
        p.close(m_halo + m_core, h.mass, 'density_integrates_to_the_mass', 1.2e-2 + m_core / h.mass + 2 * p.ut)
    m23 = 10 * m22
    rho_c = 1.9 / a / m23 ** 2 * (rc / a) ** -4 * 1e9
    # before the fit that shares the mass budget, the density is that of the relation itself
    th = rc / p.kpa
    sol = lambda r: (1 + 0.091 * (r / rc) ** 2) ** -8
    p.close(h.profile_args[2], rho_c * sigma2d(sol, 1e-6 * rc, reach=1e9) / p.scrit, 'central_density_before_the_fit', 1e-2)
    p.close(h.profile_args[1], th, 'radius_before_the_fit', 3e-3)
    p.ck.expect(1 / 1.6 < q / rho_c < 1 / 0.45, 'central_density_of_the_soliton', kind=p.kind, ratio=q / rho_c, **p.lab)
    p.ck.expect(0.29 < k['CNFW']['r_core'] / k['ULDM']['theta_c'] < 6.1, 'core_of_the_halo', kind=p.kind, kw=p.kw, **p.lab)
    p.close(k['CNFW']['center_x'], round(h.x, 4), 'position', 1e-9)


CHECKS = {'NFW_FIELD': check_nfw, 'NFW_SUB': check_nfw, 'TNFW_FIELD': check_tnfw, 'TNFW_SUB': check_tnfw, 'FROM_PARAMS': check_tnfw,
          'EMULATOR': check_tnfw, 'CNFW': check_cnfw, 'TNFWC': check_tnfwc, 'GNFW_FIELD': check_gnfw, 'GNFW_SUB': check_gnfw,
          'SPL_FIELD': check_spl, 'SPL_SUB': check_spl, 'GC': check_gc, 'PJAFFE': check_pjaffe, 'BH': check_bh, 'GAUSSIAN': check_gaussian,
          'SIS': check_sis, 'MASSIVE_GALAXY': check_galaxy, 'HYBRID': check_hybrid, 'ULDM_FIELD': check_uldm, 'ULDM_SUB': check_uldm}


def simple_halos(ck, w, r, i):
    """halos created directly from a mass, a position and a truncation or bound mass"""
    from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
    from pyHalo.concentration_models import preset_concentration_models
    conc = preset_concentration_models('DIEMERJOYCE19')[0](w.ap, scatter=False)
    for k in range(3):
        m, x, y = float(10 ** r.uniform(6.5, 9.5)), float(r.uniform(-1, 1)), float(r.uniform(-1, 1))
        z, tau = float(r.uniform(0.1, w.zs - 0.1)), float(10 ** r.uniform(-1, 1.5))
        model = 'DIEMERJOYCE19' if k else conc
        lab = dict(halo=dict(world=i, mass=m, z=z, tau=tau), factor=1.0)
        with ck.scenario('profile:simple_field', **lab):
            h = TNFWFieldHalo.simple_setup(m, x, y, z, tau, w.lc, model)
            ck.case(dict(kind='simple_field', **lab))
            p = Probe(ck, w, h, 'simple_field', lab)
            p.close(h.profile_args[1], tau * h.nfw_params[1], 'truncation_of_a_simple_halo', 1e-6)
            c = conc.nfw_concentration(m, z)
            p.close(h.c, c, 'concentration_of_a_simple_halo', 1e-2)
            p.ck.expect(not h.is_subhalo and h.z == z and h.mass == m and (h.x, h.y) == (x, y), 'simple_halo_as_requested', **lab)
            check_tnfw(p, {'args': {}})
        zi, fb = float(r.uniform(max(w.zl, 0.3) + 0.3, 6)), float(10 ** r.uniform(-1.5, -0.1))
        lab = dict(halo=dict(world=i, mass=m, zinf=zi, bound=fb), factor=1.0)
        with ck.scenario('profile:simple_subhalo', **lab):
            h = TNFWSubhalo.simple_setup(m, fb, zi, x, y, w.zl, w.lc, model)
            ck.case(dict(kind='simple_subhalo', **lab))
            p = Probe(ck, w, h, 'simple_subhalo', lab)
            p.ck.expect(h.is_subhalo and h.z == w.zl and h.z_infall == zi and h.mass == m and (h.x, h.y) == (x, y), 'simple_halo_as_requested', **lab)
            p.close(h.c, conc.nfw_concentration(m, zi), 'concentration_of_a_simple_halo', 1e-2)
            p.close(h.bound_mass_galacticus_definition, fb * m, 'bound_mass_of_a_simple_halo', 1e-9)
            check_tnfw(p, {'args': {}})


def wave_formulas(ck, w, r, i):
    """relations of wave dark matter"""
    import pyHalo.utilities as ut
    lm, z = float(r.uniform(-23, -20)), float(r.uniform(0, 4))
    v = float(r.uniform(30, 300))
    lab = dict(log_m=lm, z=z, v=v)
    with ck.scenario('wave_dark_matter', **lab):
        ck.case(dict(kind='wave', **lab))
        ck.close(ut.de_broglie_wavelength(lm, v), 1.2 * 10 ** (-22 - lm) * 100 / v, 'de_broglie_wavelength', rtol=1e-9, **lab)
        om = lambda q: w.ap.Om(q)
        zeta = lambda q: (18 * np.pi ** 2 + 82 * (om(q) - 1) - 39 * (om(q) - 1) ** 2) / om(q)
        want = (1 + z) ** 0.75 * (zeta(z) / zeta(0)) ** 0.25 * 4.4e7 * (10 ** (lm + 22)) ** -1.5
        low = float(r.uniform(4, 9))
        f = ut.MinHaloMassULDM(lm, w.ap, low)
        ck.close(f.m_min(z), want, 'minimum_halo_mass', rtol=1e-6, **lab)
        ck.close(f(z), max(low, np.log10(want)), 'minimum_halo_mass', rtol=1e-6, **lab)
        c, rs, rhos = float(r.uniform(3, 20)), float(10 ** r.uniform(-1, 1.5)), float(10 ** r.uniform(5, 8))
        R = float(r.uniform(0.05, 0.8) * min(c, 3) * rs)
        zz = np.linspace(0, np.log(c * rs / R + np.sqrt((c * rs / R) ** 2 - 1)), 4001)         # r = R cosh(u)
        y = (rhos * nfw(R * np.cosh(zz), rs)) ** 2 * R * np.cosh(zz)
        ck.close(ut.projected_density_squared(R, rhos, rs, c), 2 * integrate.simpson(y, x=zz), 'projected_density_squared', rtol=1e-3, c=c, rs=rs, R=R)
        x0 = float(r.uniform(0.5, 2.5))
        t = np.geomspace(x0, c, 4001)
        rho = lambda x: rhos * nfw(x, 1.0)
        mass = lambda x: 4 * np.pi * rhos * rs ** 3 * gn(x)
        s2 = integrate.simpson(rho(t) * G_KPC * mass(t) / (t * rs) ** 2 * rs, x=t) / rho(x0)
        ck.close(ut.nfw_velocity_dispersion(rhos, rs, c, x0), np.sqrt(s2), 'velocity_dispersion_of_an_nfw_halo', rtol=4e-3, c=c, rs=rs, x0=x0)
    m, zl, dB = float(10 ** r.uniform(12.3, 13.7)), float(r.uniform(0.1, 0.9)), float(10 ** r.uniform(-2, 0.5))
    rein = float(r.uniform(3, 12))
    lab = dict(m=m, z=zl, dB=dB, R=rein)
    with ck.scenario('wave_dark_matter:fluctuations', **lab):
        from pyHalo.Cosmology.cosmology import Cosmology
        from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
        ap = Cosmology().astropy
        ck.case(dict(kind='wave', **lab))
        c = ConcentrationDiemerJoyce(ap, scatter=False).nfw_concentration(m, zl)
        rc = ap.critical_density(zl).to('Msun/kpc3').value
        r200 = (3 * m / (4 * np.pi * 200 * rc)) ** (1 / 3)
        rs = r200 / c
        rhos = m / (4 * np.pi * rs ** 3 * gn(c))
        zz = np.linspace(0, np.arccosh(r200 / rein), 4001)
        i2 = 2 * integrate.simpson((rhos * nfw(rein * np.cosh(zz), rs)) ** 2 * rein * np.cosh(zz), x=zz)
        want = np.sqrt(np.sqrt(np.pi) * i2 * dB)
        ck.close(ut.delta_sigma(m, zl, rein, dB), want, 'amplitude_of_wave_fluctuations', rtol=5e-3, **lab)
        zs = float(r.uniform(zl + 0.5, 3.5))
        ck.close(ut.delta_kappa(zl, zs, m, rein, dB), want / (refs.scrit(ap, zl, zs) * 1e-6), 'amplitude_of_wave_fluctuations', rtol=8e-3, zs=zs, **lab)


def body(ck):
    worlds = 6 * ROUNDS
    per = 2
    for i in range(worlds):
        if ck.out_of_time(0.8):
            break
        r = rng_for('world', i)
        seed_global('world', i)
        w = World(r, scatter=bool(i % 2))
        simple_halos(ck, w, r, i)
        wave_formulas(ck, w, r, i)
        for kind in CHECKS:
            for j in range((3 * per if kind == 'EMULATOR' else per) if not kind.startswith('ULDM') else 1):
                s = w.spec(kind, rng=r)
                if kind == 'TNFWC' and j % 2:
                    s['args']['rt_kpc'] = float(10 ** r.uniform(-1.3, 0))
                if kind == 'EMULATOR' and j % 2:
                    s['c'], s['args']['fb'] = float(10 ** r.uniform(0.4, 2.28)), float(10 ** r.uniform(-3.0, -0.01))
                if kind.startswith('GNFW') and j == per - 1:
                    s['args']['mass_conservation'] = float(s['mass'] * r.uniform(0.05, 0.5))
                if kind == 'SPL_SUB' and j == per - 1:
                    s['args'].update([{'evaluate_mc_at_zlens': True}, {'evaluate_mc_at_zlens': False, 'c': float(r.uniform(4, 20))}, {'evaluate_mc_at_zlens': True, 'c': float(r.uniform(4, 20))}][int(r.integers(0, 3))])
                lab = dict(halo=dict(world=i, **{k: v for k, v in s.items() if k not in ('tag', 'kind', 'x', 'y')}))
                with ck.scenario('profile:' + kind, kind=kind, **lab):
                    h = w.make(s)
                    lab['factor'] = 1.0
                    if kind in ('NFW_FIELD', 'NFW_SUB', 'TNFW_FIELD', 'TNFW_SUB', 'FROM_PARAMS', 'CNFW', 'EMULATOR') and j % 2:
                        _ = h.profile_args, h.lenstronomy_params
                        lab['factor'] = float(r.uniform(0.2, 3))
                        h.rescale_normalization(lab['factor'], force=True)
                    p = Probe(ck, w, h, kind, lab)
                    ck.case(dict(kind=kind, **lab))
                    CHECKS[kind](p, s)


if __name__ == '__main__':
    vf.main('C17', RULE, body)
