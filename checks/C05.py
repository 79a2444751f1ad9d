import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
import astropy.units as un
from astropy.cosmology import FlatLambdaCDM
from scipy import integrate
from vf import THOROUGH, rng_for, seed_global
from oracles import ARCSEC, gnfw

RULE = ('random cosmologies (several alive at the same time and queried in interleaved order), lens/source redshifts, masses, '
        'concentrations and redshifts; every case is a query whose answer is compared with astropy/colossus/quadrature')


def tab_tol(z):
    """distances are linear interpolations with step 0.02"""
    z = np.asarray(z, float)
    return np.where(z < 0.019, 3e-2, 3e-4 / z + 3e-4)


def check_cosmology(ck, cosmo, ap, rng, lab, nz):
    zs = np.concatenate([rng.uniform(0.021, 3.99, nz), np.round(rng.uniform(0.021, 3.99, nz), 2), [0.02, 0.5, 1.0, 2.0, 3.5]])
    # neighbouring redshifts, asked for one after the other
    z0 = rng.uniform(0.05, 3.5)
    near = z0 + rng.permutation(np.array([0, 1e-7, 1e-6, 3e-6, 1e-5, 4e-5, 1e-4, 4e-4, 1e-3, 4e-3]))
    zs = np.concatenate([zs, near])
    fns = {
        'D_A_z': (cosmo.D_A_z, lambda z: ap.angular_diameter_distance(z).value, tab_tol),
        'D_C_z': (cosmo.D_C_z, lambda z: ap.comoving_transverse_distance(z).value, tab_tol),
        'kpc_proper_per_asec': (cosmo.kpc_proper_per_asec, lambda z: 1.0 / ap.arcsec_per_kpc_proper(z).value, tab_tol),
        'E_z': (cosmo.E_z, ap.efunc, lambda z: 1e-8),
        'rho_crit': (cosmo.rho_crit, lambda z: ap.critical_density(z).to(un.Msun / un.Mpc ** 3).value, lambda z: 5e-4),
        'scale_factor': (cosmo.scale_factor, lambda z: 1 / (1 + z), lambda z: 1e-12),
        'D_C_transverse': (cosmo.D_C_transverse, lambda z: ap.comoving_transverse_distance(z).value, lambda z: 1e-8),
    }
    for name, (f, ref, tol) in fns.items():
        want = np.asarray(ref(zs), float)
        arr = np.asarray(f(zs), float)
        sca = np.array([float(f(float(z))) for z in zs])
        again = np.array([float(f(float(z))) for z in rng.permutation(zs)])
        ck.expect(arr.shape == zs.shape, 'array_in_array_out:' + name, lab=lab)
        ck.expect(np.all(np.abs(arr - want) <= tol(zs) * np.abs(want)), 'agrees_with_astropy:' + name, lab=lab,
                  z=zs[np.argmax(np.abs(arr / want - 1))], rel=float(np.max(np.abs(arr / want - 1))))
        ck.close(sca, arr, 'scalar_equals_array:' + name, rtol=1e-12, lab=lab)
        ck.close(np.sort(again), np.sort(sca), 'repeat_is_identical:' + name, rtol=0, lab=lab)
    # beyond the tables
    for z in (4.5, 7.0):
        ck.close(cosmo.D_A_z(z), ap.angular_diameter_distance(z).value, 'beyond_table:D_A_z', rtol=1e-6, lab=lab, z=z)
        ck.close(cosmo.D_C_z(z), ap.comoving_transverse_distance(z).value, 'beyond_table:D_C_z', rtol=1e-6, lab=lab, z=z)
        ck.close(cosmo.D_A_z(np.array([0.5, z])), ap.angular_diameter_distance([0.5, z]).value, 'beyond_table:array', rtol=3e-4,
                 lab=lab, z=z)
    for _ in range(4):
        z1, z2 = np.sort(rng.uniform(0.02, 4, 2))
        want = ap.angular_diameter_distance_z1z2(z1, z2).value
        ck.close(cosmo.D_A(z1, z2), want, 'agrees_with_astropy:D_A', rtol=1e-9, lab=lab)
        ck.close(cosmo.D_A(z1, z2), want, 'repeat_is_identical:D_A', rtol=1e-9, lab=lab)
        ck.close(cosmo.D_A(0, z1), ap.angular_diameter_distance(z1).value, 'agrees_with_astropy:D_A', rtol=1e-9, lab=lab)
        zz = np.array([z2, z2 + 0.3])
        ck.close(cosmo.D_A(z1, zz), ap.angular_diameter_distance_z1z2(z1, zz).value, 'scalar_equals_array:D_A', rtol=1e-9, lab=lab)
    # ... of a pair of redshifts
    za = rng.uniform(0.05, 3.0)
    for d in (3e-6, 3e-5, 3e-4, 3e-3):
        pairs = [(za + i * d, za + d * (10 + j)) for i in range(3) for j in range(3)]
        got = [cosmo.D_A(*pairs[i]) for i in rng.permutation(len(pairs))]
        got = [cosmo.D_A(*q) for q in pairs]
        want = [ap.angular_diameter_distance_z1z2(*q).value for q in pairs]
        ck.close(got, want, 'distances_of_neighbouring_redshifts', rtol=1e-9, lab=lab, za=za, d=d)
    ck.close(cosmo.h, ap.H0.value / 100, 'hubble', rtol=1e-12, lab=lab)
    ck.close(cosmo.rho_dark_matter_crit, ap.Odm(0) * ap.critical_density(0).to(un.Msun / un.Mpc ** 3).value, 'rho_dm', rtol=5e-4,
             lab=lab)
    # ages
    for zf in (10.0, 6.0, 3.0, float(rng.uniform(2, 12))):
        z = np.append(rng.uniform(0, zf, 6), [0.0, zf])
        want = ap.age(z).value - ap.age(zf).value
        got = np.array([cosmo.halo_age(float(q), zform=zf) for q in z])
        ck.close(got, want, 'halo_age', rtol=0, atol=0.03, lab=lab, zform=zf)
        ck.close(cosmo.halo_age(z, zform=zf), got, 'scalar_equals_array:halo_age', rtol=1e-9, atol=1e-12, lab=lab)
        ck.expect(cosmo.halo_age(zf + 1.0, zform=zf) == 0, 'age_zero_before_formation', lab=lab, zform=zf)
        ck.expect(np.all(np.diff(cosmo.halo_age(np.linspace(0, zf, 30), zform=zf)) < 0), 'age_decreases_with_z', lab=lab)
    za, zf = float(rng.uniform(0.1, 2)), float(rng.uniform(3, 10))
    for d in (1e-6, 3e-5, 1e-3):
        z, f = za + d * rng.permutation(4), zf + d * rng.permutation(4)
        for q in f:
            got = np.array([cosmo.halo_age(float(x), zform=float(q)) for x in z])
            ck.close(got, cosmo.halo_age(z, zform=float(q)), 'ages_of_neighbouring_redshifts', rtol=1e-11, lab=lab)
            ck.close(got - got[0], ap.age(z).value - ap.age(z[0]).value, 'ages_of_neighbouring_redshifts', rtol=0,
                     atol=1e-10 + 2.0 * d, lab=lab)
    ck.close(cosmo.halo_age(0.5), ap.age(0.5).value - ap.age(10).value, 'halo_age_default_formation', rtol=0, atol=0.03, lab=lab)
    # colossus side describes the same universe
    col = cosmo.colossus
    key = 'colossus_follows_astropy_instance' if lab.get('from') == 'astropy' else 'colossus_same_parameters'
    ck.close([col.H0, col.Om0], [ap.H0.value, ap.Om0], key, rtol=1e-9, lab=lab)
    if ap.Ob0 is not None:
        ck.close(col.Ob0, ap.Ob0, key, rtol=1e-9, lab=lab)


def proj_mass(rho, R):
    """mass in the cylinder of radius R (rho(r) spherical), by direct quadrature of M_cyl = M(<R) + shells outside"""
    inner = integrate.quad(lambda s: 4 * np.pi * np.exp(3 * s) * rho(np.exp(s)), np.log(R) - 30, np.log(R), limit=400,
                           epsrel=1e-9)[0]
    # outside: fraction of shell inside the cylinder = 1 - sqrt(1 - R^2/r^2); r = R/sin(t)
    outer = integrate.quad(lambda t: 4 * np.pi * (R / np.sin(t)) ** 2 * rho(R / np.sin(t)) * (1 - np.cos(t))
                           * R * np.cos(t) / np.sin(t) ** 2, 0, np.pi / 2, limit=400, epsrel=1e-9)[0]
    return inner + outer


def check_lens_cosmo(ck, rng, cosmo, ap, lab, make_cosmo):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.utilities import generate_lens_plane_redshifts
    zl = round(float(rng.uniform(0.15, 1.2)), 2)
    zs = round(float(zl + rng.uniform(0.3, 2.2)), 2)
    lab = dict(lab, zl=zl, zs=zs)
    lc = LensCosmo(zl, zs, cosmo)
    c_kms, G = 299792.458, 4.30091e-9  # km/s ; Mpc (km/s)^2 / Msun

    def scrit(z, zsrc):
        return c_kms ** 2 / (4 * np.pi * G) * ap.angular_diameter_distance(zsrc).value / (
            ap.angular_diameter_distance(z).value * ap.angular_diameter_distance_z1z2(z, zsrc).value)

    kpa = 1 / ap.arcsec_per_kpc_proper(zl).value
    ck.close(lc.sigma_crit_lensing, scrit(zl, zs), 'sigma_crit', rtol=3e-3, lab=lab)
    ck.close(lc.sigma_crit_lens_kpc, scrit(zl, zs) * 1e-6, 'sigma_crit_kpc', rtol=3e-3, lab=lab)
    ck.close(lc.sigmacrit, scrit(zl, zs) * 1e-6 * kpa ** 2, 'sigma_crit_arcsec', rtol=5e-3, lab=lab)
    ck.close([lc.D_d, lc.D_s, lc.D_ds], [ap.angular_diameter_distance(zl).value, ap.angular_diameter_distance(zs).value,
                                         ap.angular_diameter_distance_z1z2(zl, zs).value], 'lensing_distances', rtol=2e-3, lab=lab)
    planes, _ = generate_lens_plane_redshifts(zl, zs)
    for z in np.append(rng.choice(planes, 5), planes[-1]):
        z = float(z)
        tol = 3e-3 + 2 * float(tab_tol(z))
        kz = 1 / ap.arcsec_per_kpc_proper(z).value
        ck.close(lc.get_sigma_crit_lensing(z, zs), scrit(z, zs), 'sigma_crit_at_z', rtol=tol, lab=lab, z=z)
        ck.close(lc.sigma_crit_arcsecond_interp(z), scrit(z, zs) * 1e-6 * kz ** 2, 'sigma_crit_arcsec_table', rtol=2 * tol, lab=lab, z=z)
        area = float(10 ** rng.uniform(-6, 0))
        ck.close(lc.sigma_crit_mass(z, area), scrit(z, zs) * area, 'sigma_crit_mass', rtol=tol, lab=lab, z=z)
        # point mass: theta_E^2 = 4GM/c^2 Dds/(Dd Ds)
        want = np.sqrt(4 * G / c_kms ** 2 * ap.angular_diameter_distance_z1z2(z, zs).value
                       / ap.angular_diameter_distance(z).value / ap.angular_diameter_distance(zs).value) / ARCSEC
        ck.close(lc.point_mass_factor_z(z), want, 'point_mass_factor', rtol=tol, lab=lab, z=z)
        sig = float(rng.uniform(5, 300))
        ck.close(lc.thetaE_from_sigma(z, sig), 4 * np.pi * (sig / c_kms) ** 2 * ap.angular_diameter_distance_z1z2(z, zs).value
                 / ap.angular_diameter_distance(zs).value / ARCSEC, 'sis_einstein_radius', rtol=1e-3, lab=lab, z=z)
        # NFW bookkeeping
        m, c = float(10 ** rng.uniform(5, 13.5)), float(rng.uniform(2, 40))
        rc = ap.critical_density(z).to(un.Msun / un.Mpc ** 3).value
        for pseudo in (False, True):
            l2 = dict(lab, z=z, m=m, c=c, pseudo=pseudo)
            rho0, rs, r200 = lc.nfwParam_physical(m, c, z, pseudo)
            ck.close(m / (4 * np.pi / 3 * r200 ** 3), 200 * rc, 'virial_overdensity', rtol=3e-3, **l2)
            ck.close(r200 / rs, c, 'concentration_is_ratio', rtol=1e-9, **l2)
            enc = 4 * np.pi * rho0 * rs ** 3 * (0.5 * np.log(1 + c * c) if pseudo else gnfw(c))
            rtol_m = 3e-3
            if pseudo:
                # the pseudo-NFW halo is x^-1 (1+x^2)^-1
                ck.close(enc, m, 'pseudo_nfw_encloses_mass', rtol=rtol_m, **l2)
            else:
                ck.close(enc, m, 'nfw_encloses_mass', rtol=rtol_m, **l2)
            k = lc.NFW_params_physical(m, c, z, pseudo)
            ck.close(k, [rho0 * 1e-9, rs * 1e3, r200 * 1e3], 'kpc_units', rtol=1e-9, **l2)
            rsa, alpha = lc.nfw_physical2angle(m, c, z, pseudo)
            dd = ap.angular_diameter_distance(z).value
            ck.close(rsa, rs / dd / ARCSEC, 'scale_radius_in_arcsec', rtol=2e-3 + 2 * float(tab_tol(z)), **l2)
            prof = (lambda x: rho0 / ((x / rs) * (1 + (x / rs) ** 2))) if pseudo else \
                (lambda x: rho0 / ((x / rs) * (1 + x / rs) ** 2))
            m2d = proj_mass(prof, rs)
            want = m2d / (np.pi * scrit(z, zs) * rs * dd) / ARCSEC
            # a relative statement (the deflection of the enclosed projected mass)
            ck.close(alpha, want, 'deflection_is_projected_mass' + ('_pseudo' if pseudo else ''),
                     rtol=2 * tol, **l2)
            ck.close(lc.nfw_physical2angle_fromNFWparams(rho0, rs, z, pseudo), [rsa, alpha], 'angle_from_params_agree', rtol=1e-9, **l2)
            ck.close(lc.nfw_physical2angle_fromNFWparams(2 * rho0, rs, z, pseudo)[1], 2 * alpha, 'deflection_linear_in_density',
                     rtol=1e-9, **l2)
        N = float(rng.choice([50, 200, 500]))
        rN = lc.rN_M(m * lc.h, z, N)
        ck.close(m / (4 * np.pi / 3 * rN ** 3), N * rc, 'rN_overdensity', rtol=3e-3, lab=lab, N=N)
        ck.case(dict(lab, z=z, m=m, c=c))
        # documented: default concentration relation
        p1 = lc.NFW_params_physical_fromMZ(m, z)
        p2 = lc.NFW_params_physical_fromMZ(m, z, scale_concentration=2.0)
        ck.close(p2[1] * 2, p1[1], 'scaled_concentration', rtol=1e-9, lab=lab)
        ck.close([p1[2], p2[2]], [r200 * 1e3] * 2, 'fromMZ_r200', rtol=1e-9, lab=lab)
    try:
        lc.nfwParam_physical(1e8, 10., 0.5, pseudo_nfw=None)
        ck.fail('pseudo_flag_required', lab=lab)
    except Exception:
        ck.count('pseudo_flag_required')
    # one object asked at neighbouring redshifts answers as a new one does at each of them
    m, c, sg, area = float(10 ** rng.uniform(6, 12)), float(rng.uniform(3, 30)), float(rng.uniform(5, 300)), 1e-3
    ask = lambda o, q: np.array([o.get_sigma_crit_lensing(q, zs), o.sigma_crit_mass(q, area), o.sigma_crit_arcsecond_interp(q),
                                 o.point_mass_factor_z(q), o.thetaE_from_sigma(q, sg), o.cosmo.halo_age(q), o.cosmo.kpc_proper_per_asec(q)]
                                + list(o.nfwParam_physical(m, c, q, False)) + list(o.nfw_physical2angle(m, c, q, False)), float)
    q0 = float(rng.uniform(0.1, zs - 0.1))
    for d in (2e-6, 4e-5, 7e-4):
        qs = [q0 + d * i for i in rng.permutation(4)]
        used = [ask(lc, q) for q in qs]
        new = [ask(LensCosmo(zl, zs, make_cosmo()), q) for q in qs]
        ck.close(used, new, 'neighbouring_redshifts_are_told_apart', rtol=1e-10, lab=lab, q0=q0, d=d)
    # particle-mass relations: inverses, scalings, published values
    for _ in range(6):
        mhm = float(10 ** rng.uniform(5, 10))
        mt = float(lc.halfmode_to_thermal(mhm))
        ck.close(mt, 2.32 * (ap.Om0 / 0.25) ** 0.4 * (ap.h / 0.7) ** 0.8 * (mhm / 1e9) ** -0.3, 'thermal_mass', rtol=1e-6, lab=lab)
        inv = float(np.ravel(lc.mthermal_to_halfmode(mt))[0])
        ck.close(np.log10(inv), np.log10(mhm), 'halfmode_inverse', rtol=0, atol=0.01, lab=lab, mhm=mhm)
        f = float(lc.mhm_to_fsl(mhm))
        rho = ap.critical_density(0).to(un.Msun / un.Mpc ** 3).value
        ck.close(4 * np.pi / 3 * rho * (13.93 * f / 2) ** 3, mhm, 'free_streaming_length', rtol=2e-3, lab=lab, mhm=mhm)
    # kinematics
    for _ in range(4):
        rhos, rs = float(10 ** rng.uniform(5, 9)), float(10 ** rng.uniform(-2, 1.5))
        x = np.linspace(1.5, 3, 3000)
        vm = np.max(np.sqrt(4.30091e-6 * 4 * np.pi * rhos * rs ** 2 * gnfw(x) / x))
        ck.close(lc.nfw_vmax(rhos, rs), vm, 'nfw_vmax', rtol=1e-2, lab=lab)
        sg = float(rng.uniform(1, 200))
        t = lc.sidm_collapse_timescale(rhos, rs, sg)
        # t_c = (150/C) / (sigma rho_s r_s sqrt(4 pi G rho_s))
        kpc, ms = 3.0857e21, 1.989e33
        r_ = rhos * ms / kpc ** 3
        want = 150 / 0.75 / (sg * r_ * rs * kpc * np.sqrt(4 * np.pi * 6.674e-8 * r_)) / 3.156e16
        ck.close(t, want, 'collapse_timescale', rtol=0.02, lab=lab, rhos=rhos, rs=rs, sg=sg)
        ck.close(lc.mean_free_path(rhos, sg), 1 / (r_ * sg) / kpc, 'mean_free_path', rtol=5e-3, lab=lab)
        z, zi, lt = float(rng.uniform(0.1, 1)), float(rng.uniform(1.1, 14)), float(rng.uniform(0.2, 2))
        ti = ap.age(min(zi, 10.0)).value
        want = (ti - ap.age(10).value) + lt * (ap.age(z).value - ti)
        ck.close(lc.sidm_halo_effective_age(z, zi, lt), want, 'sidm_effective_age', rtol=0, atol=0.08 * max(1, lt), lab=lab, z=z,
                 zinf=zi, lt=lt)
        zf = float(rng.choice([7.0, 8.5, 12.0, 16.0]))
        want = max(ti - ap.age(zf).value, 0.0) + lt * (ap.age(z).value - ti)
        ck.close(lc.sidm_halo_effective_age(z, zi, lt, zform=zf), want, 'sidm_effective_age', rtol=0, atol=0.08 * max(1, lt), lab=lab, z=z,
                 zinf=zi, lt=lt, zform=zf)
        ck.close(lc.sidm_halo_effective_age(z, zi, 1.0), cosmo.halo_age(z), 'effective_age_unit_rate', rtol=1e-9, atol=1e-9, lab=lab)
        m, z, c = float(10 ** rng.uniform(8, 13)), float(rng.uniform(0.1, 1.0)), float(rng.uniform(3, 15))
        rho_, rs_, r2_ = lc.NFW_params_physical(m, c, z)
        ck.close(lc.halo_dynamical_time(8 * m, z, c), lc.halo_dynamical_time(m, z, c), 'dynamical_time_mass_independent', rtol=1e-6)
        ck.close(lc.halo_dynamical_time(m, z, c), r2_ * 3.0857e16 / lc.nfw_vmax(rho_, rs_) / 3.156e16, 'dynamical_time', rtol=0.01)
    return lc


def check_two_halo(ck, rng, lcs):
    """the two-halo term, queried alternately on lens cosmologies of different universes, keeps its own answer; it agrees with
    colossus evaluated explicitly in that universe"""
    from colossus.cosmology import cosmology as ccol
    from colossus.lss.bias import twoHaloTerm
    from pyHalo.Rendering.two_halo import two_halo_enhancement_factor, modificationLazar2021
    first = {}
    jobs = []
    for i, (lc, ap, lab) in enumerate(lcs):
        for _ in range(2):
            jobs.append((i, float(10 ** rng.uniform(12.5, 13.8)), float(rng.uniform(0.8, 12)), 0.5))
    for rep in range(2):
        for j in rng.permutation(len(jobs)):
            i, m, r, z = jobs[j]
            lc, ap, lab = lcs[i]
            got = float(lc.twohaloterm(r, m, z))
            if j in first:
                ck.close(got, first[j], 'two_halo_repeat', rtol=1e-9, lab=lab)
            first[j] = got
    for j, (i, m, r, z) in enumerate(jobs):
        lc, ap, lab = lcs[i]
        col = lc.colossus
        ccol.setCurrent(col)
        ref = float(twoHaloTerm(r * ap.h, m * ap.h, z, mdef='200c') / col.rho_m(z))
        ck.close(first[j], ref, 'two_halo_own_cosmology', rtol=1e-6, lab=lab, m=m, r=r)
        ck.expect(first[j] > 0, 'two_halo_positive', lab=lab)
        ck.case(dict(two_halo=[m, r, z], **lab))
    for i in rng.permutation(len(lcs))[:3]:
        lc, ap, lab = lcs[i]
        m = float(10 ** rng.uniform(12.5, 13.8))
        rmax = float(rng.uniform(3, 20))
        xs = np.linspace(0.5, rmax, 400)
        base = np.array([lc.twohaloterm(x, m, 0.5) for x in xs])
        ck.close(lc.two_halo_boost(m, 0.5, 0.5, rmax), 1 + 2 * integrate.simpson(base, x=xs) / (rmax - 0.5), 'two_halo_boost_mean',
                 rtol=3e-3, lab=lab)
        zl, dz, r200 = 0.5, 0.02, 0.4
        rm = ap.comoving_transverse_distance(zl + dz).value - ap.comoving_transverse_distance(zl).value
        xs = np.geomspace(0.5, rm, 400)
        b0 = np.array([lc.twohaloterm(x, m, zl) for x in xs])
        b1 = b0 + 0.1 * (xs / r200 / 5) ** -4.0
        for flag, b in ((False, b0), (True, b1)):
            want = 2 * integrate.simpson(b * xs, x=np.log(xs)) / (rm - 0.5)
            for sc in (1.0, 2.5):
                ck.close(two_halo_enhancement_factor(zl, dz, lc, m, r200, flag, sc), sc * want, 'two_halo_enhancement', rtol=3e-3,
                         lab=lab, lazar=flag)
        ck.close(modificationLazar2021(5 * r200, r200), 0.1, 'lazar_pivot', rtol=1e-9)


def check_mass_function_isolation(ck, rng, lcs):
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Cosmology.geometry import Geometry
    out = {}
    for rep in range(2):
        for i in rng.permutation(len(lcs)):
            lc, ap, lab = lcs[i]
            mf = ShethTormen.from_redshift(0.5, 0.02, Geometry(lc.cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE'), {
                'log_mlow': 6.0, 'log_mhigh': 10.0, 'LOS_normalization': 1.0, 'm_pivot': 1e8,
                'delta_power_law_index': 0.0, 'draw_poisson': False})
            v = np.append(mf.n_mean, mf.first_moment)
            if i in out:
                ck.close(v, out[i], 'mass_function_own_cosmology', rtol=1e-9, lab=lab)
            out[i] = v


def check_tnfw_util(ck, rng):
    from pyHalo.Halos.tnfw_halo_util import tnfw_density_profile, tnfw_mass_fraction, tau_mf_interpolation, cubic_real_roots
    interp = tau_mf_interpolation()
    for _ in range(60 if THOROUGH else 25):
        c, tau = float(10 ** rng.uniform(0.3, 2.3)), float(10 ** rng.uniform(-2.5, 2))
        rs, rhos = float(10 ** rng.uniform(-1, 1)), float(10 ** rng.uniform(5, 9))
        r = np.geomspace(1e-6, c, 20001)
        y = tnfw_density_profile(r * rs, rhos, rs, tau * rs)
        ck.close(y, rhos / (r * (1 + r) ** 2) * tau ** 2 / (tau ** 2 + r ** 2), 'tnfw_density', rtol=1e-8)
        mf_num = integrate.simpson(y / rhos * r ** 3, x=np.log(r)) / gnfw(c)
        mf = float(tnfw_mass_fraction(tau, c))
        ck.close(mf, mf_num, 'tnfw_mass_fraction', rtol=2e-3, c=c, tau=tau)
        ck.expect(0 < mf < 1, 'tnfw_mass_fraction_range', c=c, tau=tau)
        if 1e-4 < mf < 0.85 and tau > 1e-3:
            t2 = 10 ** float(np.squeeze(interp((np.log10(c), np.log10(mf)))))
            ck.close(float(tnfw_mass_fraction(t2, c)), mf, 'bound_mass_round_trip', rtol=0.02, c=c, tau=tau, tau2=t2)
        ck.case(dict(tnfw=[c, tau]))
        # polynomials with known roots
        roots = np.sort(rng.uniform(-10, 10, 3))
        a = float(rng.choice([1.0, -2.0, 0.3]))
        got = np.sort(np.real(cubic_real_roots(a, *(a * np.poly(roots)[1:]))))
        if np.min(np.diff(roots)) > 0.05:
            ck.close(got, roots, 'cubic_three_roots', rtol=1e-5, atol=1e-5, roots=roots)
        r1, b1, c1 = float(rng.uniform(-8, 8)), float(rng.uniform(-3, 3)), float(rng.uniform(3, 9))
        got = cubic_real_roots(*(a * np.polymul([1, -r1], [1, b1, c1])))
        ck.expect(len(got) == 1 and abs(got[0] - r1) < 1e-4 * (1 + abs(r1)), 'cubic_one_root', r=r1, got=list(got))
        got = np.sort(cubic_real_roots(0.0, 1.0, -(roots[0] + roots[1]), roots[0] * roots[1]))
        ck.close(got, roots[:2], 'quadratic_roots', rtol=1e-6, atol=1e-6)


def body(ck):
    from pyHalo.Cosmology.cosmology import Cosmology
    rng = rng_for('C05')
    seed_global('C05')
    n = 14 if THOROUGH else 6
    objs = []
    for k in range(n):
        kw = {} if k == 0 else {'H0': float(rng.uniform(60, 78)), 'Om0': float(rng.uniform(0.2, 0.4)),
                                'Ob0': float(rng.uniform(0.04, 0.055))}
        lab = dict(kw)
        if k % 3 == 2:
            ap = FlatLambdaCDM(**kw)
            arg = dict(astropy_instance=ap)
            cosmo = Cosmology(**arg)
            lab['from'] = 'astropy'
        elif k % 3 == 1:
            kw.update(sigma8=float(rng.uniform(0.75, 0.85)), ns=0.96)
            arg = dict(cosmo_kwargs=dict(kw))
            cosmo = Cosmology(**arg)
            ap = FlatLambdaCDM(H0=kw['H0'], Om0=kw['Om0'], Ob0=kw['Ob0'])
            ck.close([cosmo.colossus.sigma8, cosmo.colossus.ns], [kw['sigma8'], 0.96], 'colossus_same_parameters', rtol=1e-9, lab=lab)
        else:
            part = {q: kw[q] for q in list(kw)[:2]}
            arg = dict(cosmo_kwargs=dict(part))
            cosmo = Cosmology(**arg)
            ap = FlatLambdaCDM(H0=part.get('H0', 67.5), Om0=part.get('Om0', 0.309), Ob0=0.049)
            lab = dict(part)
        objs.append((cosmo, ap, lab, arg))
    order = list(range(n))
    lcs = []
    for rep in range(2):
        for i in rng.permutation(order):
            cosmo, ap, lab, arg = objs[i]
            make_cosmo = lambda arg=arg: Cosmology(**arg)
            with ck.scenario('cosmology', **lab):
                check_cosmology(ck, cosmo, ap, rng, lab, 40 if THOROUGH else 12)
                ck.case(dict(rep=rep, i=int(i), **lab))
            with ck.scenario('lens_cosmo', **lab):
                for _ in range(3 if THOROUGH else 1):
                    lc = check_lens_cosmo(ck, rng, cosmo, ap, lab, make_cosmo)
                if rep == 0:
                    lcs.append((lc, ap, lab))
    with ck.scenario('two_halo'):
        check_two_halo(ck, rng, lcs)
    with ck.scenario('mass_functions'):
        check_mass_function_isolation(ck, rng, lcs)
    with ck.scenario('tnfw_util'):
        check_tnfw_util(ck, rng)


if __name__ == '__main__':
    vf.main('C05', RULE, body)
