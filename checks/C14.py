import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import json
import pickle
import subprocess
import tempfile
import numpy as np
from vf import THOROUGH, SEED, rng_for
from worlds import exports, snapshot

RULE = ('calls of every preset model (and of pyHalo.render) with random arguments, followed by random extensions, replayed with the same '
        'random seed in three histories: as the first call of the process, after all other calls in this process with shared argument '
        'dictionaries, and in another interpreter with another hash seed, directory and order; a case is one call with its arguments')
PRESETS = ['CDM', 'CDM', 'CDM', 'WDM', 'WDM', 'WDM_mixed', 'WDMGeneral', 'ULDM', 'SIDM_core_collapse', 'SIDM_parametric',
           'SIDM_parametric_fixedbins', 'CDM_plus_BH', 'CDMBinned', 'CDMCorrelatedStructure', 'DMEmulator', 'JointLOSWithEmulator',
           'DMGalacticus', 'render', 'render']
N = 114 if THOROUGH else 38


# -- arguments -------------------------------------------------------------------------------------------------------------------
def pick(rng, *a):
    return a[int(rng.integers(0, len(a)))]


def u(rng, lo, hi, digits=4):
    return round(float(rng.uniform(lo, hi)), digits)


def system(rng):
    zl, zs = round(float(rng.uniform(0.25, 0.7)), 2), round(float(rng.uniform(1.1, 2.2)), 2)
    return zl, zs


def cosmo_kwargs(rng):
    if rng.integers(0, 2):
        return None
    r = rng_for('C14cosmology', int(rng.integers(0, 3)))      # three cosmologies in each run
    ob, om = 0.049, u(r, 0.25, 0.38, 2)
    return {'H0': u(r, 63, 75, 1), 'Ob0': ob, 'Om0': om, 'Odm0': round(om - ob, 3), 'sigma8': u(r, 0.77, 0.85, 2), 'flat': 'flat', 'ns': 0.965, 'power_law': False}


def common(rng):
    """keyword arguments most presets take"""
    k = {'sigma_sub': u(rng, 0.01, 0.08), 'log_mlow': u(rng, 6.9, 7.6, 2), 'log_mhigh': u(rng, 8.6, 10, 2),
         'cone_opening_angle_arcsec': u(rng, 2, 6, 2), 'log_m_host': u(rng, 12.6, 13.8, 2), 'LOS_normalization': u(rng, 0.1, 1.2, 2),
         'geometry_type': pick(rng, 'DOUBLE_CONE', 'DOUBLE_CONE', 'CYLINDER', 'CONE'), 'shmf_log_slope': u(rng, -1.95, -1.85, 3)}
    return {q: v for q, v in k.items() if rng.integers(0, 3) or q == 'log_mlow'}


def models(rng, wdm=False, infall=True):
    k = {}
    if rng.integers(0, 2):
        t = pick(rng, 'TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_R50', 'TRUNCATION_RN', 'TRUNCATION_MULTIPLE_RS')
        k['truncation_model_subhalos'] = {'TRUNCATION_MULTIPLE_RS': 'MULTIPLE_RS'}.get(t, t)
        k['kwargs_truncation_model_subhalos'] = {'LOS_truncation_factor': u(rng, 20, 80, 0)} if t == 'TRUNCATION_RN' else \
            {'tau': 2.5} if t == 'TRUNCATION_MULTIPLE_RS' else {}
    if rng.integers(0, 2):
        k['truncation_model_fieldhalos'] = pick(rng, 'TRUNCATION_RN', 'TRUNCATION_R50', 'TRUNCATION_R200', 'SPLASHBACK')
        k['kwargs_truncation_model_fieldhalos'] = {}
    if not wdm and rng.integers(0, 2):
        for w in ('subhalos', 'fieldhalos'):
            m = pick(rng, 'DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW')
            k['concentration_model_' + w] = m
            k['kwargs_concentration_model_' + w] = {'c0': 17.0, 'zeta': -0.3, 'beta': 0.8} if m == 'PEAK_HEIGHT_POWERLAW' else {}
    if infall and rng.integers(0, 3):
        m = pick(rng, 'HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL', 'GALACTICUS_2024', 'INFALL_ZLENS')
        k['infall_redshift_model'] = m
        k['kwargs_infall_model'] = pick(rng, {}, {'log_m_host': u(rng, 12.6, 13.8, 1)}, {'m_host': 10.0 ** u(rng, 12.6, 13.8, 1)}) if m == 'DIRECT_INFALL' else {}
        if rng.integers(0, 2) and not k['kwargs_infall_model']:
            del k['kwargs_infall_model']
    return k


def emulator(rng):
    n, s = int(rng.integers(3, 30)), int(rng.integers(0, 2 ** 31))

    def data():
        r = np.random.default_rng(s)
        m = 10 ** r.uniform(7, 9.5, n)
        return [m, r.uniform(5, 20, n), m * r.uniform(0.1, 1, n), r.uniform(0.6, 4, n), 10 ** r.uniform(-3.5, -2, n), r.normal(0, 5e-3, n), r.normal(0, 5e-3, n)]
    data.label = 'emulator %d %d' % (n, s)
    return data


def nodes(rng):
    """output of a merger tree code: hosts and subhalos of a few trees"""
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil as G
    g = G()
    nt, out = int(rng.integers(1, 4)), {k: [] for k in (g.PARAM_X, g.PARAM_Y, g.PARAM_Z, g.PARAM_TNFW_RHO_S, g.PARAM_TNFW_RADIUS_TRUNCATION,
                                                        g.PARAM_RADIUS_VIRIAL, g.PARAM_RADIUS_SCALE, g.PARAM_MASS_BOUND, g.PARAM_MASS_INFALL, g.PARAM_ISOLATED,
                                                        g.PARAM_Z_LAST_ISOLATED, g.PARAM_CONCENTRATION, g.PARAM_TREE_INDEX, g.PARAM_TREE_ORDER, g.PARAM_NODE_ID)}
    for t in range(nt):
        n = int(rng.integers(3, 25))
        m = 10 ** rng.uniform(7, 9.5, n)
        c = rng.uniform(5, 25, n)
        rv = 0.3 * (m / 1e13) ** (1 / 3)
        pos = rng.normal(0, 0.01, (3, n))
        iso = np.zeros(n, int)
        iso[-1], m[-1], rv[-1], pos[:, -1] = 1, 1e13, 0.5, 0
        for key, v in ((g.PARAM_X, pos[0]), (g.PARAM_Y, pos[1]), (g.PARAM_Z, pos[2]), (g.PARAM_TNFW_RHO_S, 10 ** rng.uniform(15, 16, n)),
                       (g.PARAM_TNFW_RADIUS_TRUNCATION, rv * rng.uniform(0.1, 1, n)), (g.PARAM_RADIUS_VIRIAL, rv), (g.PARAM_RADIUS_SCALE, rv / c),
                       (g.PARAM_MASS_BOUND, m * rng.uniform(0.1, 1, n)), (g.PARAM_MASS_INFALL, m), (g.PARAM_ISOLATED, iso),
                       (g.PARAM_Z_LAST_ISOLATED, rng.uniform(0.6, 4, n)), (g.PARAM_CONCENTRATION, c), (g.PARAM_TREE_INDEX, np.full(n, t + 1)),
                       (g.PARAM_TREE_ORDER, np.full(n, t)), (g.PARAM_NODE_ID, rng.integers(0, 10 ** 6, n))):
            out[key].append(v)
    return {k: np.concatenate(v) for k, v in out.items()}, nt


def preset_config(rng, name):
    """(callable, positional arguments, keyword arguments)"""
    from pyHalo.preset_models import preset_model_from_name as get
    zl, zs = system(rng)
    kc = cosmo_kwargs(rng)
    cos = {} if kc is None and rng.integers(0, 2) else {'kwargs_cosmo': kc}
    gcs = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.4, 'rendering_radius_arcsec': 0.3, 'gc_surface_mass_density': 10 ** 5.2,
           'center_x': pick(rng, 0.5, [0.5, -0.8]), 'center_y': 0.2}
    if isinstance(gcs['center_x'], list):
        gcs['center_y'] = [0.1, 0.9]
    gc = {'add_globular_clusters': True, 'kwargs_globular_clusters': gcs} if rng.integers(0, 4) == 0 else {}
    if name == 'CDM':
        k = dict(common(rng), **models(rng), **cos, **gc)
        k.update(pick(rng, {}, {'subhalo_spatial_distribution': 'PROJECTED_NFW'}, {'c_host': None}, {'mass_threshold_sis': 10 ** 8.5, 'galaxy_model': pick(rng, 'SIS', 'GNFW')},
                      {'two_halo_contribution': False}, {'draw_poisson': False}, {'log10_sigma_sub': -1.3}, {'log10_dNdA': -1.5}, {'lens_plane_spacing': 0.04}))
        return get('CDM'), (zl, zs), k
    if name == 'WDM':
        k = dict(common(rng), **models(rng, wdm=True), **cos, **gc)
        k.update(pick(rng, {}, {'kwargs_concentration_model_subhalos': {}, 'kwargs_concentration_model_fieldhalos': {}}, {'subhalo_spatial_distribution': 'UNIFORM'},
                      {'mass_function_model_subhalos': 'SHMF_LOVELL2014', 'kwargs_mass_function_subhalos': {}, 'kwargs_mass_function_fieldhalos': {}, 'mass_function_model_fieldhalos': 'LOVELL2014'},
                      {'concentration_model_subhalos': 'BOSE2016_LUDLOW', 'kwargs_density_profile': {}}, {'two_halo_contribution': False}))
        return get('WDM'), (zl, zs, u(rng, 6, 8.5, 2)), k
    if name == 'WDM_mixed':
        k = dict(common(rng), **models(rng, wdm=True, infall=False), **cos)
        k.update(pick(rng, {}, {'kwargs_mass_function_subhalos': {}, 'kwargs_mass_function_fieldhalos': {}}, {'kwargs_mass_function_subhalos': {'a_wdm': 1.5}}))
        return get('WDM_mixed'), (zl, zs, u(rng, 6, 8.5, 2), u(rng, 0.05, 0.95, 2)), k
    if name == 'WDMGeneral':
        k = dict(common(rng), **cos, **gc)
        k.update({q: v for q, v in models(rng, wdm=True).items() if not q.startswith('concentration')})
        return get('WDMGeneral'), (zl, zs, u(rng, 6, 8.5, 2), u(rng, -3, -1, 2)), k
    if name == 'ULDM':
        k = dict(common(rng), **{q: v for q, v in models(rng, wdm=True, infall=False).items() if 'truncation' in q}, **cos)
        k.update(pick(rng, {'flucs': False}, {'flucs': True, 'flucs_args': {'x_images': [1.0, -1.1], 'y_images': [0.2, -0.1], 'aperture': 0.2}, 'n_cut': 500},
                      {'flucs': True, 'flucs_shape': 'ring', 'flucs_args': {'rmin': 0.9, 'rmax': 1.0}, 'n_cut': 300}))
        return get('ULDM'), (zl, zs, u(rng, -21.6, -20.6, 2)), k
    if name == 'SIDM_core_collapse':
        k = dict(common(rng), **models(rng), **cos, **gc)
        prof = pick(rng, ('TNFWC', {'x_core_halo': 0.03}), ('SPL_CORE', {'log_slope_halo': 3.0, 'x_core_halo': 0.05}), ('GNFW', {'gamma_inner': 2.6, 'gamma_outer': 3.2}))
        k['collapsed_halo_profile'] = prof[0]
        k.update(prof[1])
        return get('SIDM_core_collapse'), (zl, zs, [[6, 8], [8, 10]], [[6, 8], [8, 10]], [u(rng, 0, 1, 2), 0.5], [0.2, u(rng, 0, 1, 2)]), k
    if name == 'SIDM_parametric':
        k = dict(common(rng), **models(rng), **cos, **gc)
        k['x_core_halo'] = 0.05
        k['evolving_SIDM_profile'] = bool(rng.integers(0, 2))
        return get('SIDM_parametric'), (zl, zs, [[6, 8], [8, 10]], [u(rng, 1, 3, 2), u(rng, 0, 2, 2)], u(rng, -0.3, 0.3, 2)), k
    if name == 'SIDM_parametric_fixedbins':
        k = dict(common(rng), **models(rng), **cos)
        k['x_core_halo'] = 0.05
        k['evolving_profile'] = bool(rng.integers(0, 2))
        return get('SIDM_parametric_fixedbins'), (zl, zs, u(rng, 1, 3, 2), u(rng, 0, 2, 2)), k
    if name == 'CDM_plus_BH':
        k = {q: v for q, v in common(rng).items()}
        k.update(gc)
        k['log10_mlow_halos_subres'] = u(rng, 6.2, 6.6, 2)
        return get('CDM_plus_BH'), (zl, zs, u(rng, -2, -1, 2), u(rng, -1, 0, 2)), k
    if name == 'CDMBinned':
        from pyHalo.PresetModels.cdm import CDMBinned
        k = {q: v for q, v in dict(common(rng), **models(rng, wdm=True)).items() if q not in ('log_mlow', 'log_mhigh')}
        k.update(sigma_sub=0.005, LOS_normalization=0.05, cone_opening_angle_arcsec=3.0)
        k.update(cos, **gc)
        return CDMBinned, (zl, zs), k
    if name == 'CDMCorrelatedStructure':
        from pyHalo.PresetModels.cdm import CDMCorrelatedStructure
        k = {q: v for q, v in common(rng).items() if q not in ('sigma_sub', 'shmf_log_slope')}
        k['LOS_normalization'] = u(rng, 1, 4, 2)
        k.update(cos, kwargs_concentration_model={}, kwargs_truncation_model={})
        return CDMCorrelatedStructure, (zl, zs), k
    if name == 'DMEmulator':
        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
        return DMSubhalosFromEmulator, (zl, zs, emulator(rng)), {'cone_opening_angle_arcsec': u(rng, 4, 8, 1)}
    if name == 'JointLOSWithEmulator':
        k = dict(common(rng), **models(rng))
        k['sigma_sub'] = 0.0
        k.pop('cone_opening_angle_arcsec', None)
        return get('JointLOSWithEmulator'), (zl, zs, emulator(rng), u(rng, 3, 6, 1), 'CDM'), k
    if name == 'DMGalacticus':
        nd, nt = nodes(rng)
        k = {q: v for q, v in dict(common(rng), **models(rng)).items() if q not in ('sigma_sub', 'cone_opening_angle_arcsec')}
        k.update(proj_angle_theta=u(rng, 0, 3.1), proj_angle_phi=u(rng, 0, 6.2))
        return get('DMGalacticus'), (nd, zs, u(rng, 4, 8, 1), int(rng.integers(1, nt + 1)), 7.0, 10.0), k
    raise ValueError(name)


def render_config(rng):
    """the direct interface: two realizations from one pyHalo object"""
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.truncation_models import truncation_models
    zl, zs = system(rng)
    theta = u(rng, 2, 5, 2)
    kc = cosmo_kwargs(rng)
    mass = {'log_mlow': u(rng, 7.0, 7.5, 2), 'log_mhigh': 9.5, 'm_pivot': 1e8, 'log_m_host': 13.1, 'delta_power_law_index': 0.0}
    sub = dict(mass, sigma_sub=u(rng, 0.01, 0.06), power_law_index=-1.9, host_scaling_factor=0.5, redshift_scaling_factor=0.3)
    los = dict(mass, LOS_normalization=u(rng, 0.2, 1))
    if rng.integers(0, 2):
        sub['draw_poisson'] = los['draw_poisson'] = bool(rng.integers(0, 2))
    n = int(rng.integers(1, 4))
    infall = pick(rng, {}, {'infall_redshift_model': 'DIRECT_INFALL', 'kwargs_infall_model': {'m_host': 2e13}})
    two = dict(los) if rng.integers(0, 2) else los

    def run(zl, zs, kwargs_cosmo, sub, los, two):
        p = pyHalo(zl, zs, kwargs_cosmo)
        geo = Geometry(p.cosmology, zl, zs, theta, 'DOUBLE_CONE')
        if infall:
            p.lens_cosmo.setup_infall_model(infall['infall_redshift_model'], infall['kwargs_infall_model'])
        c, kc_ = preset_concentration_models('DIEMERJOYCE19', {'cosmo': p.astropy_cosmo, 'scatter_dex': 0.1})
        t, kt = truncation_models('TRUNCATION_RN')
        kt = dict(kt, lens_cosmo=p.lens_cosmo)
        hm = {'truncation_model_subhalos': t(**kt), 'concentration_model_subhalos': c(**kc_), 'truncation_model_field_halos': t(**kt),
              'concentration_model_field_halos': c(**kc_), 'kwargs_density_profile': {}}
        ks = {'m_host': 10 ** 13.1, 'zlens': zl, 'c_host': 5.0, 'rmax2d_arcsec': theta / 2, 'r_core_units_rs': 0.25, 'lens_cosmo': p.lens_cosmo}
        kl = {'cone_opening_angle': theta, 'geometry': geo}
        reals = p.render(['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], [CDMPowerLaw, ShethTormen, ShethTormen], [sub, los, two],
                         [ProjectedNFW, LensConeUniform, LensConeUniform], [ks, kl, kl], geo, 'TNFW', 'TNFW', hm, nrealizations=n)
        assert len(reals) == n
        out = reals[0]
        for r in reals[1:]:
            out = out.join(r)
        return out
    return run, (zl, zs, kc, sub, los, two), {}


def extension(rng, real):
    """a random extension applied to a realization, with the arguments given"""
    from pyHalo.realization_extensions import RealizationExtensions
    ext = RealizationExtensions(real)
    op = pick(rng, None, None, 'core_collapse', 'timescale', 'black_holes', 'clusters', 'fluctuations', 'filter', 'shift')
    if not len(real.halos):
        op = None
    if op == 'core_collapse':
        a = ([[6, 8], [8, 12]], [[6, 8], [8, 12]], [0.3, 0.8], [0.5, 0.1])
        idx = ext.core_collapse_by_mass(*a)
        keep = list(idx)
        idx = [i for i in idx if real.halos[i].mdef == 'TNFW']
        return op, ext.add_core_collapsed_halos(idx, 'SPL_CORE', log_slope_halo=3.0, x_core_halo=0.05), (a, keep)
    if op == 'black_holes' and all(h.mdef in ('TNFW', 'NFW') for h in real.halos):
        return op, real.join(ext.add_black_holes(-1.5, 0.4, log10_mlow_halos_subres=6.3, log_mlow_halos=6.8)), None
    if op == 'clusters':
        return op, ext.add_globular_clusters(5.0, 0.3, 0.3, center_x=[0.3, 1.0], center_y=[0.1, -0.4]), None
    if op == 'fluctuations':
        a = {'x_images': [1.0, -1.0], 'y_images': [0.1, 0.3], 'aperture': 0.2}
        return op, ext.add_ULDM_fluctuations(0.3, 0.02, 0.05, 0.01, 1000, 0.5, 'aperture', a), a
    if op == 'filter':
        from scipy.interpolate import interp1d
        d = [0.0, 2e4]
        return op, real.filter(0.6, 7.3, [interp1d(d, [0.4, 0.1]), interp1d(d, [-0.5, 0.0])], [interp1d(d, [0.2, 0.0]), interp1d(d, [0.7, 0.3])]), None
    if op == 'shift':
        d = np.linspace(0, 1.1 * real.lens_cosmo.cosmo.D_C_transverse(real.lens_cosmo.z_source), 30)
        from scipy.interpolate import interp1d
        return op, real.shift_background_to_source(interp1d(d, 1e-4 * d), interp1d(d, -2e-4 * d)), None
    return None, real, None


# -- what was observed -----------------------------------------------------------------------------------------------------------
def frozen(v, depth=0):
    """content of an argument the caller owns"""
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted(((repr(k), frozen(x, depth + 1)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frozen(x, depth + 1) for x in v)
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.dtype.str, v.tobytes())
    if v is None or isinstance(v, (bool, int, float, str, np.generic)):
        return repr(v)
    return ('object', type(v).__name__, getattr(v, 'label', ''))


def flat(v, out):
    if isinstance(v, dict):
        for k in sorted(v):
            out.append(k)
            flat(v[k], out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    elif isinstance(v, np.ndarray):
        flat(v.tolist(), out)
    elif isinstance(v, (np.generic,)):
        out.append(v.item())
    elif v is None or isinstance(v, (bool, int, float, str)):
        out.append(v)
    else:
        out.append(type(v).__name__)
    return out


def read(real, seed):
    np.random.seed(seed)
    rows = []
    for h in real.halos:
        e = exports(h)
        row = flat(list(snapshot(h)), []) + flat(list(e), [])
        try:
            row.append(float(h.c))
        except Exception:
            row.append(None)
        if h.is_subhalo:
            try:
                row.append(float(h.z_infall))
            except Exception:
                row.append(None)
        rows.append(row)
    names, z, kw, _ = real.lensing_quantities()
    return rows, flat([list(names), list(z), list(kw)], [])


def populations(ck, rng, i):
    """rendering a population or reading its mass sheets leaves no trace in the population or in the settings it was made from"""
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.Rendering.line_of_sight import LineOfSight, LineOfSightNoSheet
    from pyHalo.Rendering.two_halo import TwoHaloContribution
    from pyHalo.Rendering.subhalos import Subhalos
    from pyHalo.utilities import generate_lens_plane_redshifts
    zl, zs = system(rng)
    theta = u(rng, 2, 5, 2)
    p = pyHalo(zl, zs, cosmo_kwargs(rng))
    lc, geo = p.lens_cosmo, Geometry(p.cosmology, zl, zs, theta, str(rng.choice(['DOUBLE_CONE', 'CYLINDER'])))
    planes, dz = generate_lens_plane_redshifts(zl, zs)
    lo = u(rng, 6.5, 7.5, 2)
    varying = bool(rng.integers(0, 2))
    mass = {'log_mlow': (lambda z: lo + 0.1 * z) if varying else lo, 'log_mhigh': u(rng, 8.5, 9.6, 2), 'm_pivot': 1e8, 'delta_power_law_index': u(rng, -0.1, 0.1, 2),
            'log_m_host': 13.1, 'log_mc': 7.6, 'a_wdm': 1.0, 'b_wdm': 0.8, 'c_wdm': -1.0}
    if rng.integers(0, 2):
        mass['draw_poisson'] = bool(rng.integers(0, 2))
    los = dict(mass, LOS_normalization=u(rng, 0.3, 1.2))
    sub = dict(mass, power_law_index=-1.9, host_scaling_factor=0.5, redshift_scaling_factor=0.3, **pick(rng, {'sigma_sub': 0.03}, {'dndA': 5e-5}))
    turn = bool(rng.integers(0, 2))
    st, pl = (ShethTormenTurnover, WDMPowerLaw) if turn else (ShethTormen, CDMPowerLaw)
    cone = LensConeUniform(theta, geo)
    nfw = ProjectedNFW.from_Mhost(10 ** 13.1, zl, theta / 2, 0.5, lc)
    make = {'los': lambda k: LineOfSight(st, k, cone, geo, lc, planes, dz), 'nosheet': lambda k: LineOfSightNoSheet(st, k, cone, geo, lc, planes, dz),
            'two_halo': lambda k: TwoHaloContribution(st, k, cone, geo, lc, planes, dz), 'subhalos': lambda k: Subhalos(pl, k, nfw, geo, lc)}

    def sheets(c, name, o):
        if name == 'subhalos':
            return flat(list(c.convergence_sheet_correction(o['scale'], o['lo'], o['hi'], o['own'])), [])
        return flat(list(c.convergence_sheet_correction(o['scale'], o['lo'], o['hi'], o['zmin'], o['zmax'], o['own'])), [])

    def halos(c, seed):
        np.random.seed(seed)
        return flat([list(q) for q in c.render()], [])

    for name in make:
        given = sub if name == 'subhalos' else los
        with ck.scenario('population:' + name):
            before = frozen(given)
            lab = dict(population=name, zl=zl, zs=zs, varying=varying, turn=turn, i=i)
            opts = [dict(scale=1.0, lo=7.0, hi=10.0, own=False, zmin=None, zmax=None),
                    dict(scale=u(rng, 0.2, 1.5), lo=u(rng, 5.5, 7.9, 2), hi=u(rng, 8, 11, 2), own=bool(rng.integers(0, 2)), zmin=u(rng, 0, zl), zmax=u(rng, zl, zs)),
                    dict(scale=1.0, lo=7.0, hi=10.0, own=True, zmin=None, zmax=None)]
            seeds = [int(q) for q in rng.integers(0, 2 ** 31, 2)]
            fresh = {('halos', q): halos(make[name](given), q) for q in seeds}
            if name not in ('nosheet', 'two_halo'):
                fresh.update({('sheets', q): sheets(make[name](given), name, o) for q, o in enumerate(opts)})
            c, other = make[name](given), make[name](given)      # two populations with the same settings
            n = 0
            for q in rng.integers(0, len(fresh), 9):
                what = list(fresh)[int(q)]
                x = c if rng.integers(0, 3) else other
                got = halos(x, what[1]) if what[0] == 'halos' else sheets(x, name, opts[what[1]])
                ck.expect(got == fresh[what], 'population_keeps_no_trace_of_earlier_calls', after=n, call=list(what), size=[len(got), len(fresh[what])], **lab)
                n += 1
            ck.expect(frozen(given) == before, 'arguments_of_the_caller_are_not_modified', name='population ' + name, changed=diff(before, frozen(given)), **lab)
            ck.case(dict(lab, calls=n), len(fresh[('halos', seeds[0])]) > 0)


def reread(real, first, rng):
    """the exported lens model does not depend on what was exported before"""
    out = []
    for j in range(3):
        kw = {}
        if j < 2:
            kw = pick(rng, {}, dict(add_mass_sheet_correction=False), dict(use_class_mass_ranges=True),
                      dict(kwargs_mass_sheet=dict(log_mlow_sheets=6.5, log_mhigh_sheets=8.5)), dict(kwargs_mass_sheet=dict(kappa_scale=0.3, kappa_scale_subhalos=0.7, zmin=0.2)))
        names, z, k, _ = real.lensing_quantities(**kw)
        if not kw:
            out.append(flat([list(names), list(z), list(k)], []) == first)
    return all(out)


SHARED = {}


def share(v):
    """equal dictionaries become one object, as if a caller kept and reused it"""
    if isinstance(v, dict):
        key = frozen(v)
        return SHARED.setdefault(key, v)
    return v


def run_case(k, shared=False, between=None):
    """build configuration k and read it; returns the observation"""
    rng = rng_for('C14', k)
    name = PRESETS[k % len(PRESETS)]
    fn, a, kw = render_config(rng) if name == 'render' else preset_config(rng, name)
    seed = int(rng.integers(0, 2 ** 31))
    kx = int(rng.integers(0, 2 ** 31))
    if shared:
        a, kw = tuple(share(v) for v in a), {q: share(v) for q, v in kw.items()}
    before = frozen([a, kw])
    out = dict(k=k, name=name, args=[q if not isinstance(q, dict) or len(q) < 12 else 'nodes' for q in a if not callable(q)], kwargs={q: v for q, v in kw.items()})
    np.random.seed(seed)
    import random
    random.seed(seed)
    try:
        real = fn(*a, **kw)
        real0 = [snapshot(h) for h in real.halos]
        op, real2, extra = extension(np.random.default_rng(kx), real)
        out['extension'] = op
        out['input_kept'] = [snapshot(h) for h in real.halos] == real0
        if between is not None:
            between(k)
        out['rows'], out['lens'] = read(real2, seed + 1)
        out['reread'] = reread(real2, out['lens'], np.random.default_rng(kx + 1))
    except Exception as e:
        import traceback
        tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(vf.REPO + '/')]
        if not tb:
            raise
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        out['at'] = '%s in %s' % (os.path.relpath(tb[-1].filename, vf.REPO), tb[-1].name)
    out['arguments_kept'] = frozen([a, kw]) == before
    if not out['arguments_kept']:
        out['changed'] = [q for q in kw if frozen(kw[q]) not in repr(before)] if False else diff(before, frozen([a, kw]))
    return out


def diff(a, b, path=''):
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == 'dict':
            x, y = dict(a[1:]), dict(b[1:])
            for q in list(y) + list(x):
                if x.get(q) != y.get(q):
                    return diff(x.get(q), y.get(q), path + '[%s]' % q) or path + '[%s]' % q
        elif len(a) == len(b):
            for i, (p, q) in enumerate(zip(a, b)):
                if p != q:
                    return diff(p, q, path + '[%d]' % (i - 1))
    return '%s: %s -> %s' % (path, str(a)[:80], str(b)[:80])


def forked(k):
    """configuration k as the first thing this process does"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = pickle.dumps(run_case(k))
        except BaseException as e:
            import traceback
            data = pickle.dumps({'harness': traceback.format_exc()})
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def pristine(ks):
    """fork one process for each configuration, a few at a time"""
    out, running, todo = {}, [], list(ks)
    while todo or running:
        while todo and len(running) < 6:
            k = todo.pop(0)
            running.append((k,) + forked(k))
        k, pid, r = running.pop(0)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[k] = pickle.loads(data)
    return out


def preload():
    import importlib
    import pkgutil
    import pyHalo
    for m in pkgutil.walk_packages(pyHalo.__path__, 'pyHalo.'):
        if 'plotting' in m.name:
            continue
        importlib.import_module(m.name)


# -- comparison ------------------------------------------------------------------------------------------------------------------
def differ(a, b, rtol=5e-6):
    """first difference of two observations; None if they agree. Truncation radii come from a table that grows with the range of bound
    masses ever asked for and is interpolated to about 1e-7 (its accuracy is judged by C20); real differences are of order one"""
    if a.get('error') != b.get('error'):
        return 'error: %s / %s' % (a.get('error'), b.get('error'))
    if 'error' in a:
        return None
    if len(a['rows']) != len(b['rows']):
        return 'number of halos: %d / %d' % (len(a['rows']), len(b['rows']))
    for i, (p, q) in enumerate(list(zip(a['rows'], b['rows'])) + [(a['lens'], b['lens'])]):
        if p == q:
            continue
        if len(p) != len(q):
            return 'halo %d: %s / %s' % (i, str(p)[:150], str(q)[:150])
        for x, y in zip(p, q):
            if x != y and not (isinstance(x, float) and isinstance(y, float) and (abs(x - y) <= rtol * max(abs(x), abs(y)) + 2e-10 or (x != x and y != y))):
                return 'halo %d of %d (%s): %s / %s' % (i, len(a['rows']), p[0], x, y)
    return None


def worker():
    """another interpreter: every configuration in reverse order, one after the other"""
    preload()
    out = {}
    with vf.quiet():
        for k in reversed(range(N)):
            out[k] = run_case(k)
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)


def body(ck):
    rng = rng_for('C14')
    preload()
    scratch = tempfile.mkdtemp(prefix='c14_', dir=os.environ.get('PYHALO_SCRATCH') or None)
    path = os.path.join(scratch, 'w.pkl')
    p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__), 'worker', path], cwd=scratch, env=dict(os.environ, PYTHONHASHSEED=str(1 + SEED * 7919 % 10 ** 6)),
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    first = pristine(range(N))
    bad = [v['harness'] for v in first.values() if 'harness' in v]
    if bad:
        raise RuntimeError(bad[0])
    # this process: every configuration twice, in two random orders, sharing argument dictionaries
    here = {}
    order = [int(k) for k in rng.permutation(N)] + [int(k) for k in rng.permutation(N)[:N // 2]]
    for n, k in enumerate(order):
        if n >= N and ck.out_of_time(0.8):
            break
        cosmo = config_cosmo(k)
        same = [q for q in range(N) if q != k and config_cosmo(q) == cosmo]
        between = None
        if n >= N and same:       # other realizations in the same cosmology made before this one is read
            q = same[int(rng.integers(0, len(same)))]
            between = lambda _k, q=q: run_case(q, shared=True)
        here.setdefault(k, []).append((run_case(k, shared=True, between=between), between is not None))
    err = p.communicate()[1]
    if not os.path.exists(path):
        raise RuntimeError('worker failed: ' + err.decode()[-1500:])
    with open(path, 'rb') as f:
        other = pickle.load(f)
    os.remove(path)
    os.rmdir(scratch)
    for i in range(40 if THOROUGH else 8):
        populations(ck, rng_for('C14p', i), i)
    sizes = {}
    for k in range(N):
        a = first[k]
        label = {q: a[q] for q in ('k', 'name', 'args', 'kwargs', 'extension') if q in a}
        ck.case(label, 'rows' in a and len(a['rows']) > 0)
        if 'error' in a:
            ck.count('completes:' + a['name'])
            ck.fail('raises:' + a['name'], error=a['error'], at=a['at'], **label)
        else:
            ck.count('completes:' + a['name'])
            sizes.setdefault(a['name'], []).append(len(a['rows']))
        for hist, b in [('first call', a), ('other interpreter', other[k])] + [('after other calls', x) for x, _ in here.get(k, [])]:
            ck.expect(b['arguments_kept'], 'arguments_of_the_caller_are_not_modified', changed=b.get('changed'), name=a['name'], history=hist, k=k)
            ck.expect(b.get('reread', True), 'lens_model_does_not_depend_on_earlier_exports', op=b.get('extension'), name=a['name'], history=hist, k=k)
            ck.expect(b.get('input_kept', True), 'extended_realization_is_not_modified', op=b.get('extension'), name=a['name'], history=hist, k=k)
        d = differ(a, other[k])
        ck.expect(d is None, 'same_seed_in_another_interpreter', difference=d, **label)
        for x, lazy in here.get(k, []):
            d = differ(a, x)
            ck.expect(d is None, 'same_seed_read_after_other_realizations' if lazy else 'same_seed_after_other_calls', difference=d, **label)
    ck.note('halos_per_preset', {q: [len(v), int(sum(v))] for q, v in sizes.items()})
    ck.note('histories', {'forked_first_calls': N, 'calls_in_this_process': sum(len(v) for v in here.values()), 'calls_in_another_interpreter': len(other)})


COSMO = {}


def config_cosmo(k):
    if k not in COSMO:
        rng = rng_for('C14', k)
        name = PRESETS[k % len(PRESETS)]
        if name == 'render':
            zl, zs = system(rng)
            u(rng, 2, 5, 2)
            kc = cosmo_kwargs(rng)
        else:
            system(rng)
            kc = cosmo_kwargs(rng)
            if name in ('CDM_plus_BH', 'DMEmulator', 'JointLOSWithEmulator', 'DMGalacticus'):
                kc = None
            elif kc is None and rng.integers(0, 2):
                pass
        COSMO[k] = repr(kc or None)
    return COSMO[k]


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'worker':
        worker()
    else:
        vf.main('C14', RULE, body)
