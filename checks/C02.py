import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
from scipy import stats
from vf import THOROUGH, rng_for, seed_global
from oracles import log_integral, ks_p, log_cdf, recorded_means
from refs import Shape, kpa, sheth_tormen
from astropy.cosmology import FlatLambdaCDM

RULE = ('random (geometry, opening angle, redshifts, cosmology, mass range - possibly a function of redshift -, amplitude, slope, '
        'Poisson flag) and repeated renders of each population; non-trivial when halos were rendered or the amplitude is zero')
ZMAX = 5.6


def poisson_ok(n, mean, slack):
    """exact Poisson test allowing a relative model uncertainty `slack` on the mean"""
    lo, hi = mean * (1 - slack), mean * (1 + slack)
    if n > hi:
        return stats.poisson.sf(n - 1, hi) > 1e-8
    if n < lo:
        return stats.poisson.cdf(n, lo) > 1e-8
    return True


def make(rng):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Halos.lens_cosmo import LensCosmo
    ckw = {} if rng.integers(0, 3) == 0 else {'H0': float(rng.uniform(62, 77)), 'Om0': float(rng.uniform(0.22, 0.38))}
    cosmo = Cosmology(cosmo_kwargs=ckw)
    ap = FlatLambdaCDM(H0=ckw.get('H0', 67.5), Om0=ckw.get('Om0', 0.309), Ob0=0.049)
    zl = round(float(rng.uniform(0.2, 0.9)), 2)
    zs = round(zl + float(rng.uniform(0.4, 2.0)), 2)
    theta = float(rng.uniform(4, 10))
    gt = str(rng.choice(['DOUBLE_CONE', 'CYLINDER']))
    geo = Geometry(cosmo, zl, zs, theta, gt)
    lc = LensCosmo(zl, zs, cosmo)
    lab = dict(zl=zl, zs=zs, theta=theta, geo=gt, **ckw)
    return cosmo, ap, zl, zs, theta, gt, geo, lc, lab


def los(ck, rng):
    from pyHalo.Rendering.line_of_sight import LineOfSight, LineOfSightNoSheet
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
    from pyHalo.utilities import generate_lens_plane_redshifts
    cosmo, ap, zl, zs, theta, gt, geo, lc, lab = make(rng)
    sh = Shape(ap, zl, zs, theta, gt)
    sp = [None, 0.05, 0.1][rng.integers(0, 3)]
    planes, dzs = generate_lens_plane_redshifts(zl, zs, sp)
    n = (zs - 0.01) / (sp or 0.02)
    ck.expect(n - 1.6 <= len(planes) <= n + 2.6, 'number_of_planes', lab=lab, spacing=sp, got=len(planes), want=n)
    lo, hi = float(rng.uniform(6.3, 7.3)), float(rng.uniform(8, 10))
    varying = bool(rng.integers(0, 2))
    flo = (lambda z: lo + 0.3 * z) if varying else lo
    fhi = (lambda z: hi - 0.2 * z) if varying else hi
    LN = float(rng.uniform(0.4, 2.0))
    ds = float(rng.choice([0.0, -0.1, 0.1]))
    poisson = bool(rng.integers(0, 4))
    turn = bool(rng.integers(0, 2))
    kw = {'log_mlow': flo, 'log_mhigh': fhi, 'm_pivot': 1e8, 'LOS_normalization': LN, 'delta_power_law_index': ds,
          'draw_poisson': poisson, 'log_mc': 7.5, 'a_wdm': 1.0, 'b_wdm': 0.8, 'c_wdm': -1.2}
    lab = dict(lab, lo=lo, hi=hi, varying=varying, LN=LN, ds=ds, poisson=poisson, turnover=turn, spacing=sp)
    cls = LineOfSight if rng.integers(0, 2) else LineOfSightNoSheet
    r = cls(ShethTormenTurnover if turn else ShethTormen, kw, LensConeUniform(theta, geo), geo, lc, planes, dzs)
    sup = (lambda m: (1 + (10 ** 7.5 / m) ** 0.8) ** -1.2) if turn else (lambda m: 1.0)
    nrep = 30 if THOROUGH else 10
    count = {float(z): 0 for z in planes}
    cmax = {}
    q, mq = [], []
    means = []
    for _ in range(nrep):
        with recorded_means() as drawn:
            m, x, y, r3, z, flag = r.render()
        means.append(drawn)
        n = len(m)
        ck.expect(all(len(v) == n for v in (x, y, r3, z, flag)), 'aligned_outputs', lab=lab)
        ck.expect(not any(flag), 'los_not_subhalos', lab=lab)
        ck.expect(all(v is None for v in r3), 'los_no_host_radius', lab=lab)
        zu, cnt = np.unique(z, return_counts=True)
        for a, b in zip(zu, cnt):
            if ck.expect(float(a) in count, 'halo_on_a_lens_plane', lab=lab, z=float(a)):
                count[float(a)] += int(b)
                if not poisson:
                    cmax.setdefault(float(a), set()).add(int(b))
        ck.expect(np.all((z > 0) & (z < zs)), 'between_observer_and_source', lab=lab)
        mlo = np.array([lo + 0.3 * a if varying else lo for a in z])
        mhi = np.array([hi - 0.2 * a if varying else hi for a in z])
        ck.expect(np.all(np.log10(m) >= mlo - 1e-9) and np.all(np.log10(m) <= mhi + 1e-9), 'mass_in_range', lab=lab)
        rm = {float(a): sh.rmax_arcsec(float(a)) for a in zu}
        rmv = np.array([rm[float(a)] for a in z])
        rr = np.hypot(x.astype(float), y.astype(float))
        ck.expect(np.all(rr <= rmv * 1.003 + 3e-4), 'inside_light_cone', lab=lab, worst=float(np.max(rr / rmv)) if n else 0)
        q.append((rr / rmv) ** 2)
        mq.append(np.mod(np.arctan2(y.astype(float), x.astype(float)), 2 * np.pi) / (2 * np.pi))
    tot, want_tot, worst = 0, 0.0, []
    for z, dz in zip(planes, dzs):
        z = float(z)
        l_, h_ = (lo + 0.3 * z, hi - 0.2 * z) if varying else (lo, hi)
        amp, s = sheth_tormen(ap, cosmo.colossus, z, l_, h_, 1e8, LN, ds)
        dens = log_integral(lambda m: amp * (m / 1e8) ** s * sup(m), 10 ** l_, 10 ** h_, 2000)
        vol = sh.volume(z, dz)
        mean = dens * vol
        f = 0.03 if (z < 0.1 or sh.scale(z) < 0.15) else 0.012
        if poisson:
            ck.expect(poisson_ok(count[z], mean * nrep, f), 'plane_count_is_field_density_times_volume', lab=lab, z=z,
                      got=count[z], want=mean * nrep)
        elif not turn:
            ck.expect(abs(count[z] / nrep - mean) <= 0.5 + f * mean, 'plane_count_deterministic', lab=lab, z=z,
                      got=count[z] / nrep, want=mean)
        tot += count[z]
        want_tot += mean * nrep
        worst.append((z, sh.scale(z), mean))
    if poisson and not turn and means[0]:
        # the numbers that are drawn from, without the noise of the draw
        ck.close(sum(map(sum, means)), want_tot, 'los_total_expectation', rtol=3e-3, lab=lab)
        if all(len(v) == len(planes) for v in means):
            for t, (z, s_, mn) in enumerate(worst):
                ck.close(means[0][t], mn, 'plane_expectation_is_field_density_times_volume', rtol=3e-3 + (1e-2 if z < 0.1 or s_ < 0.15 else 0), atol=1e-6, lab=lab, z=z, scale=s_)
    if poisson:
        ck.expect(poisson_ok(tot, want_tot, 0.01), 'los_total_count', lab=lab, got=tot, want=want_tot)
    q, mq = np.concatenate(q), np.concatenate(mq)
    if len(q) > 200:
        d = stats.kstest(np.clip(q, 0, 1), 'uniform').statistic
        ck.expect(d < 0.006 + 2.9 / np.sqrt(len(q)), 'los_uniform_in_area', lab=lab, d=d, n=len(q))
        ck.expect(stats.kstest(mq, 'uniform').pvalue > 1e-7, 'los_isotropic', lab=lab)
    ck.case(lab, nontrivial=tot > 0)


def subhalos(ck, rng):
    from pyHalo.Rendering.subhalos import Subhalos, host_scaling_function
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform
    cosmo, ap, zl, zs, theta, gt, geo, lc, lab = make(rng)
    sh = Shape(ap, zl, zs, theta, gt)
    lo, hi = float(rng.uniform(6.2, 7.5)), float(rng.uniform(8.5, 10.5))
    idx, dpl = float(rng.uniform(-1.95, -1.8)), float(rng.choice([0.0, 0.07, -0.05]))
    lmh = float(rng.uniform(12.3, 13.9))
    k1, k2 = float(rng.choice([0.88, 0.55, 0.0])), float(rng.choice([1.7, 0.37, 0.0]))
    piv = float(rng.choice([1e8, 10 ** 8.5]))
    zero = rng.integers(0, 6) == 0
    amp = 0.0 if zero else float(10 ** rng.uniform(-2.3, -0.9))
    by_dnda = bool(rng.integers(0, 3) == 0)
    wdm = bool(rng.integers(0, 2))
    poisson = bool(rng.integers(0, 4))
    varying = bool(rng.integers(0, 2))
    kw = {'log_mlow': (lambda z: lo + 0.2 * z) if varying else lo, 'log_mhigh': hi, 'm_pivot': piv, 'power_law_index': idx,
          'delta_power_law_index': dpl, 'host_scaling_factor': k1, 'redshift_scaling_factor': k2, 'draw_poisson': poisson,
          'log_mc': 7.6, 'a_wdm': 2.0, 'b_wdm': 1.0, 'c_wdm': -0.8}
    kw['dndA' if by_dnda else 'sigma_sub'] = amp
    if rng.integers(0, 2):
        kw['log_m_host'] = lmh
    else:
        kw['host_m200'] = 10 ** lmh
    keys0 = sorted(kw)
    rmax = 0.5 * theta
    r200 = (3 * 10 ** lmh / (4 * np.pi * 200 * ap.critical_density(zl).to('Msun/kpc3').value)) ** (1 / 3)
    uni = bool(rng.integers(0, 2))
    if uni:
        sd = Uniform(rmax, geo)
    else:
        sd = ProjectedNFW.from_Mhost(10 ** lmh, zl, rmax, float(rng.uniform(0.1, 0.7)), lc, c_host=float(rng.uniform(3, 8)))
    lab = dict(lab, lo=lo, hi=hi, idx=idx, dpl=dpl, lmh=lmh, k1=k1, k2=k2, piv=piv, amp=amp, dnda=by_dnda, wdm=wdm, poisson=poisson,
               varying=varying, uniform=uni)
    r = Subhalos(WDMPowerLaw if wdm else CDMPowerLaw, kw, sd, geo, lc)
    ck.expect(sorted(kw) == keys0, 'caller_kwargs_untouched', lab=lab)
    a_kpc2 = np.pi * (rmax * kpa(ap, zl)) ** 2
    F = 1.0 if by_dnda else 10 ** (k1 * (lmh - 13) + k2 * np.log10(0.5 + zl))
    ck.close(host_scaling_function(10 ** lmh, zl, k1, k2), 10 ** (k1 * (lmh - 13) + k2 * np.log10(0.5 + zl)), 'host_scaling',
             rtol=1e-9, lab=lab)
    s = idx + dpl
    sup = (lambda m: (1 + 2.0 * (10 ** 7.6 / m) ** 1.0) ** -0.8) if wdm else (lambda m: 1.0)
    l_ = lo + 0.2 * zl if varying else lo
    f = lambda m: a_kpc2 * F * amp / piv * (m / piv) ** s * sup(m)
    mean = log_integral(f, 10 ** l_, 10 ** hi, 4000)
    nrep = 30 if THOROUGH else 8
    tot, ms, rs_ = 0, [], []
    means = []
    for _ in range(nrep):
        with recorded_means() as drawn:
            m, x, y, r3, z, flag = r.render()
        means += drawn
        n = len(m)
        ck.expect(all(len(v) == n for v in (x, y, r3, z, flag)), 'aligned_outputs', lab=lab)
        ck.expect(all(flag), 'flagged_as_subhalos', lab=lab)
        ck.expect(np.all(np.asarray(z) == zl), 'at_lens_redshift', lab=lab)
        if amp == 0:
            ck.expect(n == 0, 'zero_amplitude_renders_none', lab=lab, n=n)
        tot += n
        if n:
            rr = np.hypot(np.asarray(x, float), np.asarray(y, float))
            ck.expect(np.all(rr <= rmax * 1.003), 'inside_rendering_aperture', lab=lab, worst=float(rr.max() / rmax))
            ck.expect(np.all(np.log10(m) >= l_ - 1e-9) and np.all(np.log10(m) <= hi + 1e-9), 'mass_in_range', lab=lab)
            if not uni:
                ck.expect(np.all(np.asarray(r3, float) > 0) and np.all(np.asarray(r3, float) <= r200 * 1.01), 'inside_host_halo',
                          lab=lab, worst=float(np.max(r3)), r200=r200)
            ms.append(m)
        if not poisson and not wdm:
            ck.expect(abs(n - mean) <= 0.5 + 0.01 * mean, 'subhalo_count_deterministic', lab=lab, got=n, want=mean)
    if poisson and not wdm and means and mean > 0:
        ck.close(sum(means), mean * nrep, 'subhalo_expectation', rtol=3e-3, lab=lab)
    if poisson or wdm:
        ck.expect(poisson_ok(tot, mean * nrep, 0.006), 'subhalo_count', lab=lab, got=tot, want=mean * nrep)
    if ms and tot > 200:
        ck.expect(ks_p(np.concatenate(ms), log_cdf(f, 10 ** l_, 10 ** hi)) > 1e-7, 'subhalo_mass_spectrum', lab=lab)
    ck.case(lab, nontrivial=(tot > 0 or amp == 0))


def two_halo(ck, rng):
    from pyHalo.Rendering.two_halo import TwoHaloContribution, two_halo_enhancement_factor
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
    from pyHalo.utilities import generate_lens_plane_redshifts
    from pyHalo.concentration_models import ConcentrationDiemerJoyce
    cosmo, ap, zl, zs, theta, gt, geo, lc, lab = make(rng)
    sh = Shape(ap, zl, zs, theta, gt)
    planes, dzs = generate_lens_plane_redshifts(zl, zs)
    if rng.integers(0, 2):
        # planes of the caller, unevenly spaced: the correlated slice is the one of the main lens plane
        front = np.round(zl - np.cumsum(rng.uniform(0.01, 0.06, 6)), 4)
        back = np.round(zl + np.cumsum(rng.uniform(0.015, 0.08, 6)), 4)
        planes = list(front[front > 0.01][::-1]) + [zl] + list(back[back < zs - 0.02])
        dzs = np.diff(planes + [zs])
    lo, hi = 6.0, 9.0
    # a large amplitude on the side makes small errors of the mean visible
    LN, sc = float(rng.uniform(0.5, 2)) * float(rng.choice([1.0, 30.0, 100.0])), float(rng.choice([1.0, 2.0, 0.5]))
    lmh = float(rng.uniform(12.7, 13.7))
    laz = bool(rng.integers(0, 2))
    kw = {'log_mlow': lo, 'log_mhigh': hi, 'm_pivot': 1e8, 'LOS_normalization': LN, 'delta_power_law_index': 0.0,
          'draw_poisson': True}
    kw.update({'log_m_host': lmh} if rng.integers(0, 2) else {'host_m200': 10 ** lmh})
    lab = dict(lab, LN=LN, sc=sc, lmh=lmh, lazar=laz, planes=[float(q) for q in planes if abs(q - zl) < 0.1])
    r = TwoHaloContribution(ShethTormen, kw, LensConeUniform(theta, geo), geo, lc, planes, dzs, laz, sc)
    ck.expect(kw['LOS_normalization'] == LN, 'caller_kwargs_untouched', lab=lab)
    i = int(np.argmin(np.abs(np.asarray(planes) - zl)))
    dz = dzs[i]
    r200 = (3 * 10 ** lmh / (4 * np.pi * 200 * ap.critical_density(zl).to('Msun/Mpc3').value)) ** (1 / 3)
    boost = two_halo_enhancement_factor(zl, dz, lc, 10 ** lmh, r200, laz, sc)   # checked against quadrature in C05
    amp, s = sheth_tormen(ap, cosmo.colossus, zl, lo, hi, 1e8, LN, 0.0)
    mean = boost * sh.volume(zl, dz) * log_integral(lambda m: amp * (m / 1e8) ** s, 10 ** lo, 10 ** hi, 2000)
    nrep = 60 if THOROUGH else 20
    tot = 0
    means = []
    for _ in range(nrep):
        with recorded_means() as drawn:
            m, x, y, r3, z, flag = r.render()
        means += drawn
        n = len(m)
        tot += n
        ck.expect(all(len(v) == n for v in (x, y, r3, z, flag)), 'aligned_outputs', lab=lab)
        ck.expect(np.all(np.asarray(z) == zl) and not any(flag), 'two_halo_at_lens_not_subhalo', lab=lab)
        if n:
            ck.expect(np.all(np.hypot(x, y) <= 0.5 * theta * 1.003), 'inside_light_cone', lab=lab)
            ck.expect(np.all(m >= 10 ** lo * (1 - 1e-9)) and np.all(m <= 10 ** hi * (1 + 1e-9)), 'mass_in_range', lab=lab)
    if means:
        ck.close(sum(means), mean * nrep, 'two_halo_expectation', rtol=2.5e-3, lab=lab)
    ck.expect(poisson_ok(tot, mean * nrep, 0.015), 'two_halo_count', lab=lab, got=tot, want=mean * nrep)
    ck.case(lab, nontrivial=tot > 0)
    try:
        TwoHaloContribution(ShethTormen, {k: v for k, v in kw.items() if k not in ('log_m_host', 'host_m200')},
                            LensConeUniform(theta, geo), geo, lc, planes, dzs)
        ck.fail('two_halo_needs_host_mass', lab=lab)
    except Exception:
        ck.count('two_halo_needs_host_mass')


def population(ck, rng):
    """several populations together: each one is there with its own content, in order; through the top-level pyHalo class too"""
    from pyHalo.Rendering.halo_population import HaloPopulation
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.utilities import generate_lens_plane_redshifts
    from pyHalo.pyhalo import pyHalo
    from pyHalo.truncation_models import truncation_models
    from pyHalo.concentration_models import preset_concentration_models
    cosmo, ap, zl, zs, theta, gt, geo, lc, lab = make(rng)
    planes, dzs = generate_lens_plane_redshifts(zl, zs)
    # disjoint mass ranges identify the population each object came from
    kl = {'log_mlow': 7.0, 'log_mhigh': 8.0, 'm_pivot': 1e8, 'LOS_normalization': 1.0, 'delta_power_law_index': 0.0,
          'draw_poisson': False}
    kt = dict(kl, log_mlow=6.0, log_mhigh=6.9, log_m_host=13.3, LOS_normalization=3.0)
    ks = {'log_mlow': 8.1, 'log_mhigh': 10.0, 'm_pivot': 1e8, 'power_law_index': -1.9, 'delta_power_law_index': 0.0,
          'host_scaling_factor': 0.5, 'redshift_scaling_factor': 0.3, 'draw_poisson': False, 'sigma_sub': 0.3, 'log_m_host': 13.3}
    cone = dict(cone_opening_angle=theta, geometry=geo)
    pn = dict(m_host=10 ** 13.3, zlens=zl, rmax2d_arcsec=theta / 2, r_core_units_rs=0.3, lens_cosmo=lc, c_host=5.0)
    models = {'LINE_OF_SIGHT': (ShethTormen, kl, LensConeUniform, cone, lambda m: (m >= 7) & (m <= 8)),
              'TWO_HALO': (ShethTormen, kt, LensConeUniform, cone, lambda m: m < 6.95),
              'SUBHALOS': (CDMPowerLaw, ks, ProjectedNFW, pn, lambda m: m > 8.05)}
    names = [str(v) for v in rng.permutation(list(models))[:rng.integers(1, 4)]]
    lab = dict(lab, models=names)
    args = [names, [models[n][0] for n in names], [dict(models[n][1]) for n in names], [models[n][2] for n in names],
            [models[n][3] for n in names]]
    hp = HaloPopulation(*args, lc, geo, planes, dzs)
    cname = {'TWO_HALO': 'TWO_HALO_TERM'}
    cnames = [cname.get(v, v) for v in names]
    ck.expect([c.name for c in hp.rendering_classes] == cnames, 'one_renderer_per_population', lab=lab,
              got=[c.name for c in hp.rendering_classes])
    m, x, y, r3, z, flag = hp.render()
    n = len(m)
    ck.expect(all(len(v) == n for v in (x, y, r3, z, flag)), 'aligned_outputs', lab=lab)
    lm = np.log10(np.asarray(m, float))
    seen = np.zeros(n, int)
    for name in names:
        sel = models[name][4](lm)
        seen += sel
        fl = np.asarray(flag)[sel]
        zz = np.asarray(z, float)[sel]
        if name == 'SUBHALOS':
            ck.expect(fl.all() and np.all(zz == zl) and fl.size > 0, 'subhalos_flagged_in_population', lab=lab)
            ck.expect(all(v is not None for v in np.asarray(r3, object)[sel]), 'subhalos_have_host_radius', lab=lab)
        else:
            ck.expect(not fl.any(), 'field_halos_not_flagged', lab=lab, name=name)
            ck.expect(all(v is None for v in np.asarray(r3, object)[sel]), 'field_halos_no_host_radius', lab=lab)
            if name == 'TWO_HALO':
                ck.expect(np.all(zz == zl), 'two_halo_at_lens', lab=lab)
    ck.expect(np.all(seen == 1), 'every_object_from_one_population', lab=lab)
    # every population is rendered independently: same number as alone (deterministic counts)
    for name in names:
        alone = HaloPopulation([name], [models[name][0]], [dict(models[name][1])], [models[name][2]], [models[name][3]], lc, geo,
                               planes, dzs).render()
        ck.expect(len(alone[0]) == int(models[name][4](lm).sum()), 'population_content_independent', lab=lab, name=name,
                  alone=len(alone[0]), together=int(models[name][4](lm).sum()))
    try:
        HaloPopulation(['HALOS'], *[a[:1] for a in args[1:]], lc, geo, planes, dzs)
        ck.fail('unknown_population_rejected', lab=lab)
    except Exception:
        ck.count('unknown_population_rejected')
    # top-level driver
    ph = pyHalo(zl, zs, {'H0': ap.H0.value, 'Om0': ap.Om0, 'Ob0': 0.049, 'sigma8': 0.81, 'ns': 0.965, 'power_law': False,
                         'flat': True})
    cm, kc = preset_concentration_models('DIEMERJOYCE19', {'cosmo': ap, 'scatter': False})
    tm, kt_ = truncation_models('TRUNCATION_R50')
    kt_['lens_cosmo'] = ph.lens_cosmo
    khm = {'truncation_model': tm(**kt_), 'concentration_model': cm(**kc), 'kwargs_density_profile': {}}
    nr = int(rng.integers(1, 3))
    out = ph.render(*args, geo, 'NFW', 'TNFW', khm, nrealizations=nr)
    ck.expect(len(out) == nr, 'number_of_realizations', lab=lab)
    tags = set()
    for real in out:
        ck.expect(len(real.halos) == n or 'LINE_OF_SIGHT' in names, 'realization_size', lab=lab, got=len(real.halos), want=n)
        ck.expect(abs(len(real.halos) - n) <= 0.02 * n + 2, 'realization_size_close', lab=lab, got=len(real.halos), want=n)
        for h in real.halos:
            ok = (h.is_subhalo and h.z == zl and h.mass > 10 ** 8.05 and h.mdef == 'NFW') or \
                 (not h.is_subhalo and h.mass <= 1e8 * (1 + 1e-9) and h.mdef == 'TNFW')
            ck.expect(ok, 'realization_halo_as_rendered', lab=lab, mass=h.mass, z=h.z, sub=h.is_subhalo, mdef=h.mdef)
            tags.add(h.unique_tag)
        ck.expect(real.apply_mass_sheet_correction and [c.name for c in real.rendering_classes] == cnames, 'realization_keeps_renderers',
                  lab=lab)
    ck.expect(len(tags) == sum(len(r.halos) for r in out), 'unique_tags', lab=lab)
    ck.case(dict(lab, n=n), nontrivial=n > 0)


def body(ck):
    rng = rng_for('C02')
    seed_global('C02')
    for name, f, n in (('los', los, 10), ('subhalos', subhalos, 24), ('two_halo', two_halo, 10), ('population', population, 6)):
        for k in range(n * (2 if THOROUGH else 1)):
            with ck.scenario(name, k=k):
                f(ck, rng)


if __name__ == '__main__':
    vf.main('C02', RULE, body)
