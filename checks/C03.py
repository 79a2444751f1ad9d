import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
from vf import THOROUGH, rng_for, seed_global
from oracles import log_integral
from refs import Shape, scrit, sheth_tormen
from astropy.cosmology import FlatLambdaCDM

RULE = ('random realizations (populations, geometry, cosmology, mass ranges, turnover) exported with random sheet options; a case is '
        'one exported lens model whose sheets are compared with the mean mass of the populations and with the halos themselves')


def build(rng, populations, narrow=False):
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.truncation_models import truncation_models
    from pyHalo.concentration_models import preset_concentration_models
    H0, Om0 = float(rng.uniform(62, 77)), float(rng.uniform(0.22, 0.38))
    ap = FlatLambdaCDM(H0=H0, Om0=Om0, Ob0=0.049)
    zl = round(float(rng.uniform(0.2, 0.8)), 2)
    zs = round(zl + float(rng.uniform(0.4, 1.5)), 2)
    theta = float(rng.uniform(3, 5))
    gt = str(rng.choice(['DOUBLE_CONE', 'CYLINDER']))
    ph = pyHalo(zl, zs, {'H0': H0, 'Om0': Om0, 'Ob0': 0.049, 'sigma8': 0.81, 'ns': 0.965, 'power_law': False, 'flat': True})
    geo = Geometry(ph.cosmology, zl, zs, theta, gt)
    turn = bool(rng.integers(0, 2))
    lo, hi = (6.6, 7.6) if narrow else (float(rng.uniform(6.5, 7.4)), float(rng.uniform(9.0, 10.3)))
    varying = bool(rng.integers(0, 2)) and not narrow
    LN = float(rng.uniform(0.5, 2))
    sup = dict(log_mc=7.4, a_wdm=1.0, b_wdm=0.8, c_wdm=-1.1)
    kl = {'log_mlow': (lambda z: lo + 0.2 * z) if varying else lo, 'log_mhigh': hi, 'm_pivot': 1e8, 'LOS_normalization': LN,
          'delta_power_law_index': 0.0, 'draw_poisson': True, **sup}
    amp = float(rng.uniform(0.01, 0.06))
    ks = {'log_mlow': lo, 'log_mhigh': hi, 'm_pivot': 1e8, 'power_law_index': -1.9, 'delta_power_law_index': 0.0,
          'host_scaling_factor': 0.5, 'redshift_scaling_factor': 0.3, 'draw_poisson': True, 'sigma_sub': amp, 'log_m_host': 13.2,
          **sup}
    kt = dict(kl, log_mlow=lo, log_m_host=13.2)
    cone = dict(cone_opening_angle=theta, geometry=geo)
    st, pl = (ShethTormenTurnover, WDMPowerLaw) if turn else (ShethTormen, CDMPowerLaw)
    models = {'LINE_OF_SIGHT': (st, kl, LensConeUniform, cone), 'LINE_OF_SIGHT_NOSHEET': (st, kl, LensConeUniform, cone),
              'TWO_HALO': (st, kt, LensConeUniform, cone),
              'SUBHALOS': (pl, ks, Uniform, dict(rmax2d_arcsec=theta / 2, geometry=geo))}
    cm, kc = preset_concentration_models('DIEMERJOYCE19', {'cosmo': ap, 'scatter': False})
    tm, k_ = truncation_models('TRUNCATION_R50')
    k_['lens_cosmo'] = ph.lens_cosmo
    khm = {'truncation_model': tm(**k_), 'concentration_model': cm(**kc), 'kwargs_density_profile': {}}
    lab = dict(zl=zl, zs=zs, theta=theta, geo=gt, H0=H0, Om0=Om0, turn=turn, lo=lo, hi=hi, varying=varying, LN=LN, amp=amp,
               pops=list(populations))

    def render(n=1):
        return ph.render(list(populations), [models[p][0] for p in populations], [dict(models[p][1]) for p in populations],
                         [models[p][2] for p in populations], [models[p][3] for p in populations], geo, 'TNFW', 'NFW', khm,
                         nrealizations=n)

    fsup = (lambda m: (1 + (10 ** 7.4 / m) ** 0.8) ** -1.1) if turn else (lambda m: 1.0)
    sh = Shape(ap, zl, zs, theta, gt)

    def los_mass(z, dz, l_, h_, fit=None):
        a, s = sheth_tormen(ap, ph.cosmology.colossus, z, l_, h_, 1e8, LN, 0.0)
        return sh.volume(z, dz) * log_integral(lambda m: m * a * (m / 1e8) ** s * fsup(m), 10 ** l_, 10 ** h_, 3000)

    def sub_mass(l_, h_):
        F = 10 ** (0.5 * 0.2 + 0.3 * np.log10(0.5 + zl))
        A = sh.area(zl) * 1e6 * F * amp
        return A / 1e8 * log_integral(lambda m: m * (m / 1e8) ** -1.9 * fsup(m), 10 ** l_, 10 ** h_, 3000)

    rng_class = lambda p, z: ((lo + 0.2 * z) if (varying and p.startswith('LINE')) else lo, hi)
    return render, ap, ph, geo, sh, lab, los_mass, sub_mass, rng_class


def expected_sheets(populations, planes, dzs, ap, sh, zl, zs, los_mass, sub_mass, rng_class, mlo, mhi, use_class, ksc, kscs, zmin,
                    zmax):
    """list of (z, kappa) in the order of the populations"""
    out = []
    for p in populations:
        if p == 'LINE_OF_SIGHT':
            for z, dz in zip(planes, dzs):
                z = float(z)
                if zmin is not None and z < zmin:
                    continue
                if zmax is not None and z > zmax:
                    continue
                l_, h_ = rng_class(p, z) if use_class else (mlo, mhi)
                out.append((z, -ksc * los_mass(z, dz, l_, h_) / sh.area(z) / scrit(ap, z, zs)))
        elif p == 'SUBHALOS':
            l_, h_ = rng_class(p, zl) if use_class else (mlo, mhi)
            out.append((zl, -kscs * sub_mass(l_, h_) / sh.area(zl) / scrit(ap, zl, zs)))
    return out


def export(ck, rng, k):
    from pyHalo.utilities import generate_lens_plane_redshifts
    allp = ['LINE_OF_SIGHT', 'SUBHALOS', 'TWO_HALO']
    pops = [str(v) for v in rng.permutation(allp)[:rng.integers(1, 4)]]
    if k % 5 == 0:
        pops = ['LINE_OF_SIGHT_NOSHEET', 'SUBHALOS']
    render, ap, ph, geo, sh, lab, los_mass, sub_mass, rng_class = build(rng, pops)
    zl, zs = lab['zl'], lab['zs']
    real = render()[0]
    planes, dzs = generate_lens_plane_redshifts(zl, zs)
    names0, z0, kw0, _ = real.lensing_quantities(add_mass_sheet_correction=False)
    ck.expect('CONVERGENCE' not in names0, 'no_sheet_when_off', lab=lab)
    nh = len(names0)
    for opt in range(5):
        use_class = bool(opt == 1 or rng.integers(0, 3) == 0)
        mlo, mhi = (7.0, 10.0) if opt == 0 else (float(rng.uniform(6.5, 7.5)), float(rng.uniform(8.5, 10)))
        ksc, kscs = (1.0, 1.0) if opt == 0 else (float(rng.uniform(0, 1.5)), float(rng.uniform(0.1, 1.5)))
        zmin = None if opt < 3 else round(float(rng.uniform(0.05, zl)), 3)
        zmax = None if opt < 3 else round(float(rng.uniform(zl, zs)), 3)
        ks = {} if opt == 0 else dict(log_mlow_sheets=mlo, log_mhigh_sheets=mhi, kappa_scale=ksc, kappa_scale_subhalos=kscs, zmin=zmin,
                                      zmax=zmax)
        names, z, kw, _ = real.lensing_quantities(use_class_mass_ranges=use_class, kwargs_mass_sheet=ks)
        l2 = dict(lab, opt=opt, use_class=use_class, mlo=mlo, mhi=mhi, zmin=zmin, zmax=zmax, ksc=ksc, kscs=kscs)
        ck.expect(len(names) == len(z) == len(kw), 'aligned_outputs', lab=l2)
        # the halos are the same as without sheets
        ck.expect(list(names[:nh]) == list(names0) and np.array_equal(np.asarray(z[:nh], float), np.asarray(z0, float))
                  and all(a == b for a, b in zip(kw[:nh], kw0)), 'sheets_change_no_halo', lab=l2)
        sheets = [(float(a), d) for n, a, d in zip(names[nh:], z[nh:], kw[nh:])]
        ck.expect(all(n == 'CONVERGENCE' for n in names[nh:]), 'only_sheets_added', lab=l2)
        want = expected_sheets(pops, planes, dzs, ap, sh, zl, zs, los_mass, sub_mass, rng_class, mlo, mhi, use_class, ksc, kscs,
                               zmin, zmax)
        ok = ck.expect(sorted(a for a, _ in sheets) == sorted(a for a, _ in want), 'one_sheet_per_plane_and_population', lab=l2,
                       got=len(sheets), want=len(want))
        ck.expect(all(0 < a < zs for a, _ in sheets), 'sheets_in_front_of_source', lab=l2)
        if ok:
            got = {}
            for a, d in sheets:
                got.setdefault(a, []).append(d['kappa'])
            ref = {}
            for a, v in want:
                ref.setdefault(a, []).append(v)
            for a in ref:
                f = (0.05 if (a < 0.1 or sh.scale(a) < 0.2) else 0.015)
                ck.close(sorted(got[a]), sorted(ref[a]), 'sheet_is_minus_mean_convergence', rtol=f, lab=l2, z=a)
            ck.expect(all(d['kappa'] <= 0 for _, d in sheets), 'sheets_negative', lab=l2)
            ck.expect(all(abs(d['ra_0']) < 1e-9 and abs(d['dec_0']) < 1e-9 for _, d in sheets), 'sheets_centred', lab=l2)
        ck.case(l2, nontrivial=len(want) > 0)
        again = real.lensing_quantities(use_class_mass_ranges=use_class, kwargs_mass_sheet=ks)
        ck.expect(list(again[0]) == list(names) and all(a == b for a, b in zip(again[2], kw)), 'repeat_is_identical', lab=l2)
    # exact sheets: minus the mass actually present
    names, z, kw, _ = real.lensing_quantities(kwargs_mass_sheet=dict(subtract_exact_sheets=True))
    sheets = {float(a): d['kappa'] for n, a, d in zip(names[nh:], z[nh:], kw[nh:])}
    m = {}
    for h in real.halos:
        m[h.z] = m.get(h.z, 0.0) + (h.bound_mass if h.is_subhalo else h.mass)
    ck.expect(set(sheets) == set(m), 'exact_sheets_only_where_halos_are', lab=lab, extra=sorted(set(sheets) - set(m))[:3],
              missing=sorted(set(m) - set(sheets))[:3])
    for a in m:
        f = (0.05 if (a < 0.1 or sh.scale(a) < 0.2) else 0.015)
        if a in sheets:
            ck.close(sheets[a], -m[a] / sh.area(a) / scrit(ap, a, zs), 'exact_sheet_is_minus_mass', rtol=f, lab=lab, z=a)
    # a shifted realization has its sheets on the light path
    from scipy.interpolate import interp1d
    d = np.linspace(0, ap.comoving_distance(zs).value * 1.01, 60)
    sx, sy = float(rng.uniform(-0.3, 0.3)), float(rng.uniform(-0.3, 0.3))
    Dl, Ds = ap.comoving_distance(zl).value, ap.comoving_distance(zs).value
    path = lambda amp: np.where(d < Dl, 0.0, amp * (d - Dl) / (Ds - Dl) * 2)
    px, py = interp1d(d, path(sx)), interp1d(d, path(sy))
    sh2 = real.shift_background_to_source(px, py)
    n2, z2, k2, _ = sh2.lensing_quantities()
    for n, a, kk in zip(n2, z2, k2):
        if n == 'CONVERGENCE':
            dc = ap.comoving_distance(float(a)).value
            ck.close([kk['ra_0'], kk['dec_0']], [px(dc), py(dc)], 'sheets_follow_the_light_path', rtol=2e-2, atol=2e-3, lab=lab,
                     z=float(a))
    real.apply_mass_sheet_correction = False
    ck.expect('CONVERGENCE' not in real.lensing_quantities()[0], 'no_sheet_when_realization_says_so', lab=lab)


def balance(ck, rng):
    """the mean over many realizations of halo mass minus sheet mass vanishes on every plane"""
    pops = [['LINE_OF_SIGHT'], ['SUBHALOS'], ['LINE_OF_SIGHT', 'SUBHALOS']][rng.integers(0, 3)]
    render, ap, ph, geo, sh, lab, los_mass, sub_mass, rng_class = build(rng, pops, narrow=True)
    zs = lab['zs']
    n = 120 if THOROUGH else 30
    tot = tot_sheet = var = 0.0
    plane = {}
    for i in range(n):
        real = render()[0]
        names, z, kw, _ = real.lensing_quantities(use_class_mass_ranges=True)
        nh = len(real.halos)
        ks = {}
        for a, d in zip(z[nh:], kw[nh:]):
            ks[float(a)] = ks.get(float(a), 0.0) + d['kappa']
        for h in real.halos:
            p = plane.setdefault(h.z, [0.0, 0.0])
            p[0] += h.mass
            p[1] += h.mass ** 2
        if i == 0:
            sheet = ks
    for a in sorted(set(plane) | set(sheet)):
        mass, m2 = plane.get(a, (0.0, 0.0))
        sm = -sheet.get(a, 0.0) * sh.area(a) * scrit(ap, a, zs) * n
        # compound-Poisson variance, with a floor of a few objects of the largest mass
        sd = np.sqrt(m2 + 9 * (10 ** 7.6) ** 2)
        f = 0.05 if (a < 0.1 or sh.scale(a) < 0.2) else 0.02
        ck.expect(abs(mass - sm) < 6.5 * sd + f * sm, 'halos_plus_sheet_vanish_on_plane', lab=lab, z=a, halos=mass / n, sheet=sm / n,
                  sd=sd / n)
        tot, tot_sheet, var = tot + mass, tot_sheet + sm, var + m2
    ck.expect(abs(tot - tot_sheet) < 6 * np.sqrt(var) + 0.02 * tot_sheet, 'halos_plus_sheets_vanish_overall', lab=lab, halos=tot / n,
              sheets=tot_sheet / n)
    ck.case(dict(balance=lab, planes=len(plane)), nontrivial=tot > 0)


def body(ck):
    rng = rng_for('C03')
    seed_global('C03')
    for k in range(50 if THOROUGH else 8):
        with ck.scenario('export', k=k):
            export(ck, rng, k)
    for k in range(14 if THOROUGH else 4):
        with ck.scenario('balance', k=k):
            balance(ck, rng)


if __name__ == '__main__':
    vf.main('C03', RULE, body)
