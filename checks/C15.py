import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import inspect
import numpy as np
from scipy import integrate
from vf import THOROUGH, rng_for, seed_global
from C14 import preset_config, read, differ, pick, u, emulator
import refs

RULE = ('calls of every preset model with random arguments beside the same model assembled from classes, documented parameter values and '
        'the low-level rendering interface with the same random state; calls of every registry with every known and with unknown names; a '
        'case is one call with its arguments')
PRESETS = ['CDM', 'WDM', 'CDM', 'WDM_mixed', 'WDMGeneral', 'WDM', 'ULDM', 'CDM', 'SIDM_core_collapse', 'SIDM_parametric', 'CDM', 'SIDM_parametric_fixedbins',
           'WDM', 'CDM_plus_BH', 'CDMBinned', 'CDMCorrelatedStructure', 'JointLOSWithEmulator', 'DMEmulator', 'WDMGeneral', 'ULDM']
ROUNDS = 8 if THOROUGH else 3


# -- documented content of the registries -----------------------------------------------------------------------------------------
def truncations():
    from pyHalo.Halos import tidal_truncation as t
    return {'TRUNCATION_R50': (t.TruncationRN, {'LOS_truncation_factor': 50}), 'TRUNCATION_R200': (t.TruncationRN, {'LOS_truncation_factor': 200}),
            'TRUNCATION_RN': (t.TruncationRN, {}), 'TRUNCATION_ROCHE': (t.TruncationRoche, {}),
            'TRUNCATION_ROCHE_GILMAN2020': (t.TruncationRoche, {'RocheNorm': 1.4, 'm_power': 1 / 3, 'RocheNu': 2 / 3}),
            'SPLASHBACK': (t.TruncationSplashBack, {}), 'TRUNCATION_MEAN_DENSITY': (t.TruncateMeanDensity, {}),
            'TRUNCATION_GALACTICUS': (t.TruncationGalacticus, {}), 'TRUNCATION_GALACTICUS_ZINFALL': (t.TruncationGalacticusZinfall, {}),
            'TRUNCATION_GALACTICUS_KEELEY24': (t.TruncationGalacticusKeeley24, {}), 'CONSTANT': (t.ConstantTruncationArcsec, {}),
            'MULTIPLE_RS': (t.Multiple_RS, {}), 'BOUND_MASS_PDF': (t.TruncationBoundMassPDF, {}),
            'TRUNCATION_GALACTICUS_CDM_APPROX': (t.TruncationGalacticusApproxCDM, {})}


def concentrations():
    from pyHalo.Halos import concentration as c
    bose = {'kwargs_cdm': {}, 'c_scale': 60.0, 'c_power': -0.17, 'c_power_inner': 1.0, 'mc_suppression_redshift_evolution': False}
    return {'DIEMERJOYCE19': (c.ConcentrationDiemerJoyce, {}), 'LUDLOW2016': (c.ConcentrationLudlow, {}), 'PEAK_HEIGHT_POWERLAW': (c.ConcentrationPeakHeight, {}),
            'BINNED_HALO_MASS': (c.BinnedHaloMass, {}), 'WDM_HYPERBOLIC': (c.ConcentrationWDMHyperbolic, {}), 'WDM_POLYNOMIAL': (c.ConcentrationWDMPolynomial, {}),
            'BOSE2016': (c.ConcentrationWDMPolynomial, dict(bose, concentration_cdm_class=c.ConcentrationDiemerJoyce)),
            'BOSE2016_LUDLOW': (c.ConcentrationWDMPolynomial, dict(bose, concentration_cdm_class=c.ConcentrationLudlow)),
            'LAROCHE2022': (c.ConcentrationWDMPolynomial, {'concentration_cdm_class': c.ConcentrationDiemerJoyce, 'kwargs_cdm': {}, 'c_scale': 21.42, 'c_power': -0.42,
                                                            'c_power_inner': 1.62}),
            'LUDLOW_WDM': (c.ConcentrationLudlowWDM, {}), 'CONSTANT': (c.ConcentrationConstant, {})}


def mass_functions():
    from pyHalo.Rendering.MassFunctions import mass_function_base as b, density_peaks as d

    def abc(x, y, z):
        return {'a_wdm': x, 'b_wdm': y, 'c_wdm': z}
    return {'SHMF_LOVELL2020': (b.WDMPowerLaw, abc(36.15, 2.5, -0.2)), 'LOVELL2020': (d.ShethTormenTurnover, abc(1.95, 0.8, -1.0)),
            'SHMF_LOVELL2014': (b.WDMPowerLaw, abc(1.0, 1.0, -1.3)), 'LOVELL2014': (d.ShethTormenTurnover, abc(1.0, 1.0, -1.3)),
            'SHMF_SCHIVE2016': (b.WDMPowerLaw, abc(1.0, 1.1, -2.2)), 'SCHIVE2016': (d.ShethTormenTurnover, abc(1.0, 1.1, -2.2)),
            'POWER_LAW': (b.CDMPowerLaw, {}), 'POWER_LAW_TURNOVER_SHMF': (b.WDMPowerLaw, {}), 'POWER_LAW_TURNOVER': (d.ShethTormenTurnover, {}),
            'SHMF_MIXED_WDM_TURNOVER': (b.MixedWDMPowerLaw, {}), 'MIXED_WDM_TURNOVER': (d.ShethTormenMixedWDM, {})}


def infall_class(name):
    from pyHalo.Halos import accretion as a
    return {'HYBRID_INFALL': a.InfallDistributionHybrid, 'DIRECT_INFALL': a.InfallDistributionDirect, 'GALACTICUS_2024': a.InfallDistributionGalacticus2024,
            'DIRECT_INFALL_CLUSTER': a.InfallDistributionClusterDirect, 'INFALL_ZLENS': a.InfallAtZlens, 'INFALL_0': a.Infall0}[name]


# -- reference models -------------------------------------------------------------------------------------------------------------
class Assembly(object):
    """one realization put together from classes"""

    def __init__(self, zl, zs, kwargs_cosmo, theta, geometry, infall, kwargs_infall, log_m_host):
        from pyHalo.pyhalo import pyHalo
        from pyHalo.Cosmology.geometry import Geometry
        self.p = pyHalo(zl, zs, dict(kwargs_cosmo) if kwargs_cosmo else None)
        self.zl, self.theta, self.host = zl, theta, log_m_host
        self.geo = Geometry(self.p.cosmology, zl, zs, theta, geometry)
        k = dict(kwargs_infall)
        if infall in ('HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER'):
            k = {'log_m_host': log_m_host}
        elif infall == 'DIRECT_INFALL':
            k = {'log_m_host': k['log_m_host'] if 'log_m_host' in k else np.log10(k['m_host']) if 'm_host' in k else 13.0}
        self.p.lens_cosmo._infall_pdf_set = True
        cls = infall_class(infall)
        self.p.lens_cosmo._z_infall_model = cls() if infall == 'INFALL_0' else cls(zl, **k)
        self.pop, self.mf, self.kmf, self.sp, self.ksp = [], [], [], [], []
        self.hm = {'kwargs_density_profile': {}}

    def concentration(self, name, **kw):
        cls, fixed = concentrations()[name]
        return cls(**dict(kw, cosmo=self.p.astropy_cosmo, **fixed))

    def truncation(self, name, kw, c_host):
        cls, k = truncations()[name]
        k = dict(k, **kw)
        if name in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24'):
            k['c_host'] = c_host
        return cls(lens_cosmo=self.p.lens_cosmo, **k)

    def models(self, csub, cfield, tsub, tfield, profile={}):
        self.hm = {'truncation_model_subhalos': tsub, 'concentration_model_subhalos': csub, 'truncation_model_field_halos': tfield,
                   'concentration_model_field_halos': cfield, 'kwargs_density_profile': dict(profile)}

    def subhalos(self, mf, kw, spatial, c_host, r_tidal):
        from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
        from pyHalo.Rendering.SpatialDistributions.uniform import Uniform
        self.pop.append('SUBHALOS')
        self.mf.append(mf)
        self.kmf.append(dict(kw, m_pivot=1e8, log_m_host=self.host))
        if spatial == 'UNIFORM':
            self.sp.append(Uniform)
            self.ksp.append({'rmax2d_arcsec': self.theta / 2, 'geometry': self.geo})
        else:
            self.sp.append(ProjectedNFW)
            self.ksp.append({'m_host': 10 ** self.host, 'zlens': self.zl, 'c_host': c_host, 'rmax2d_arcsec': self.theta / 2, 'r_core_units_rs': r_tidal,
                             'lens_cosmo': self.p.lens_cosmo})

    def field(self, pop, mf, kw):
        from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
        self.pop.append(pop)
        self.mf.append(mf)
        self.kmf.append(dict(kw, m_pivot=1e8, log_m_host=self.host))
        self.sp.append(LensConeUniform)
        self.ksp.append({'cone_opening_angle': self.theta, 'geometry': self.geo})

    def render(self, mdef='TNFW', mdef_field=None, lazar=True, boost=1.0, spacing=None):
        return self.p.render(self.pop, self.mf, self.kmf, self.sp, self.ksp, self.geo, mdef, mdef_field or mdef, self.hm, lazar, boost, nrealizations=1,
                             lens_plane_spacing=spacing)[0]


def extended(real):
    from pyHalo.realization_extensions import RealizationExtensions
    return RealizationExtensions(real)


def amplitude(o):
    if o['log10_dNdA'] is not None:
        return {'dndA': 10 ** o['log10_dNdA']}
    return {'sigma_sub': 10 ** o['log10_sigma_sub'] if o['log10_sigma_sub'] is not None else o['sigma_sub']}


SHARED = dict(sigma_sub=0.025, log_mlow=6.0, log_mhigh=10.0, log10_sigma_sub=None, log10_dNdA=None,
              truncation_model_subhalos='TRUNCATION_GALACTICUS', kwargs_truncation_model_subhalos={}, truncation_model_fieldhalos='TRUNCATION_RN',
              kwargs_truncation_model_fieldhalos={}, infall_redshift_model='HYBRID_INFALL', kwargs_infall_model={}, shmf_log_slope=-1.9,
              cone_opening_angle_arcsec=6.0, log_m_host=13.3, r_tidal=0.25, LOS_normalization=1.0, geometry_type='DOUBLE_CONE', kwargs_cosmo=None,
              host_scaling_factor=0.55, redshift_scaling_factor=0.37, two_halo_Lazar_correction=True, add_globular_clusters=False,
              kwargs_globular_clusters=None, lens_plane_spacing=None)
D_CDM = dict(SHARED, concentration_model_subhalos='LUDLOW2016', kwargs_concentration_model_subhalos={}, concentration_model_fieldhalos='LUDLOW2016',
             kwargs_concentration_model_fieldhalos={}, subhalo_spatial_distribution='UNIFORM', two_halo_contribution=True, delta_power_law_index=0.0,
             draw_poisson=True, c_host=6.0, mass_threshold_sis=None, galaxy_model='GNFW', halo_mass_profile='TNFW')
D_WDM = dict(SHARED, mass_function_model_subhalos='LOVELL2020', kwargs_mass_function_subhalos={}, mass_function_model_fieldhalos='LOVELL2020',
             kwargs_mass_function_fieldhalos={}, concentration_model_subhalos='BOSE2016', kwargs_concentration_model_subhalos={},
             concentration_model_fieldhalos='BOSE2016', kwargs_concentration_model_fieldhalos={}, subhalo_spatial_distribution='PROJECTED_NFW',
             two_halo_contribution=True, mdef_subhalos='TNFW', mdef_field_halos='TNFW', kwargs_density_profile={}, draw_poisson=True, c_host=None,
             mass_threshold_sis=None)
D_GENERAL = dict(SHARED, subhalo_spatial_distribution='PROJECTED_NFW', mdef_subhalos='TNFW', mdef_field_halos='TNFW', kwargs_density_profile={}, c_host=None,
                 mass_threshold_sis=5e10)


def options(defaults, given):
    unknown = set(given) - set(defaults)
    if unknown:
        raise RuntimeError('harness: unknown options %s' % unknown)
    return dict(defaults, **given)


def assembly(zl, zs, o):
    return Assembly(zl, zs, o['kwargs_cosmo'], o['cone_opening_angle_arcsec'], o['geometry_type'], o['infall_redshift_model'], o['kwargs_infall_model'], o['log_m_host'])


def truncated(a, o, c_host):
    return [a.truncation(o['truncation_model_' + w], o['kwargs_truncation_model_' + w], c_host) for w in ('subhalos', 'fieldhalos')]


def CDM(zl, zs, **given):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    o = options(D_CDM, given)
    a = assembly(zl, zs, o)
    c = [a.concentration(o['concentration_model_' + w], **dict(o['kwargs_concentration_model_' + w], scatter_dex=0.2)) for w in ('subhalos', 'fieldhalos')]
    c_host = c[1].nfw_concentration(10 ** o['log_m_host'], zl) if o['c_host'] is None else o['c_host']
    a.models(c[0], c[1], *truncated(a, o, c_host))
    mass = {'log_mlow': o['log_mlow'], 'log_mhigh': o['log_mhigh'], 'draw_poisson': o['draw_poisson'], 'delta_power_law_index': o['delta_power_law_index']}
    los = dict(mass, LOS_normalization=o['LOS_normalization'])
    a.subhalos(CDMPowerLaw, dict(mass, power_law_index=o['shmf_log_slope'], host_scaling_factor=o['host_scaling_factor'],
                                 redshift_scaling_factor=o['redshift_scaling_factor'], **amplitude(o)), o['subhalo_spatial_distribution'], c_host, o['r_tidal'])
    a.field('LINE_OF_SIGHT', ShethTormen, los)
    if o['two_halo_contribution']:
        a.field('TWO_HALO', ShethTormen, los)
    r = a.render(o['halo_mass_profile'], lazar=o['two_halo_Lazar_correction'], spacing=o['lens_plane_spacing'])
    if o['mass_threshold_sis'] is not None:
        r = extended(r).SIS_injection(o['mass_threshold_sis'], o['galaxy_model'])
    if o['add_globular_clusters']:
        r = extended(r).add_globular_clusters(**o['kwargs_globular_clusters'])
    return r


def WDM(zl, zs, log_mc, extra_mass={}, **given):
    o = options(D_WDM, given)
    a = assembly(zl, zs, o)
    c = []
    for w in ('subhalos', 'fieldhalos'):
        k = dict(o['kwargs_concentration_model_' + w], log_mc=log_mc)
        if o['concentration_model_' + w] in ('WDM_POLYNOMIAL', 'WDM_HYPERBOLIC') and 'concentration_cdm_class' not in k:
            from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
            k['concentration_cdm_class'] = ConcentrationDiemerJoyce
        c.append(a.concentration(o['concentration_model_' + w], **k))
    c_host = c[1].nfw_concentration(10 ** o['log_m_host'], zl) if o['c_host'] is None else o['c_host']
    a.models(c[0], c[1], *truncated(a, o, c_host), profile=o['kwargs_density_profile'])
    table = mass_functions()
    ms, ks = table[o['mass_function_model_subhalos']]
    mf, kf = table[o['mass_function_model_fieldhalos']]
    mass = {'log_mlow': o['log_mlow'], 'log_mhigh': o['log_mhigh'], 'draw_poisson': o['draw_poisson'], 'delta_power_law_index': 0.0, 'log_mc': log_mc}
    a.subhalos(ms, dict(mass, power_law_index=o['shmf_log_slope'], host_scaling_factor=o['host_scaling_factor'], redshift_scaling_factor=o['redshift_scaling_factor'],
                        **dict(amplitude(o), **dict(o['kwargs_mass_function_subhalos'], **ks))), o['subhalo_spatial_distribution'], c_host, o['r_tidal'])
    los = dict(mass, LOS_normalization=o['LOS_normalization'], **dict(o['kwargs_mass_function_fieldhalos'], **kf))
    a.field('LINE_OF_SIGHT', mf, los)
    if o['two_halo_contribution']:
        a.field('TWO_HALO', mf, los)
    r = a.render(o['mdef_subhalos'], o['mdef_field_halos'], o['two_halo_Lazar_correction'], spacing=o['lens_plane_spacing'])
    if o['add_globular_clusters']:
        r = extended(r).add_globular_clusters(**o['kwargs_globular_clusters'])
    if o['mass_threshold_sis'] is not None:
        r = extended(r).SIS_injection(o['mass_threshold_sis'])
    return r


def WDM_mixed(zl, zs, log_mc, frac, **given):
    k = dict(given)
    for w, name in (('subhalos', 'SHMF_MIXED_WDM_TURNOVER'), ('fieldhalos', 'MIXED_WDM_TURNOVER')):
        k.setdefault('mass_function_model_' + w, name)
        k['kwargs_mass_function_' + w] = dict({'a_wdm': 0.5, 'b_wdm': 0.8, 'c_wdm': -3.0}, **dict(k.get('kwargs_mass_function_' + w, {}), mixed_DM_frac=frac))
    return WDM(zl, zs, log_mc, **k)


def WDMGeneral(zl, zs, log_mc, slope, **given):
    from pyHalo.Rendering.MassFunctions.stucker import stucker_suppression_params
    from pyHalo.Rendering.MassFunctions.mass_function_base import WDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormenTurnover
    o = options(D_GENERAL, given)
    a = assembly(zl, zs, o)
    c = [a.concentration('LUDLOW_WDM', log_mc=log_mc, dlogT_dlogk=slope) for _ in range(2)]
    c_host = a.concentration('DIEMERJOYCE19').nfw_concentration(10 ** o['log_m_host'], zl) if o['c_host'] is None else o['c_host']
    a.models(c[0], c[1], *truncated(a, o, c_host), profile=o['kwargs_density_profile'])
    abc = dict(zip(('a_wdm', 'b_wdm', 'c_wdm'), stucker_suppression_params(slope)))
    mass = dict(abc, log_mlow=o['log_mlow'], log_mhigh=o['log_mhigh'], delta_power_law_index=0.0, log_mc=log_mc)
    a.subhalos(WDMPowerLaw, dict(mass, power_law_index=o['shmf_log_slope'], host_scaling_factor=o['host_scaling_factor'],
                                 redshift_scaling_factor=o['redshift_scaling_factor'], **amplitude(o)), o['subhalo_spatial_distribution'], c_host, o['r_tidal'])
    a.field('LINE_OF_SIGHT', ShethTormenTurnover, dict(mass, LOS_normalization=o['LOS_normalization']))
    a.field('TWO_HALO', ShethTormenTurnover, dict(mass, LOS_normalization=o['LOS_normalization']))
    r = a.render(o['mdef_subhalos'], o['mdef_field_halos'], o['two_halo_Lazar_correction'])
    if o['add_globular_clusters']:
        r = extended(r).add_globular_clusters(**o['kwargs_globular_clusters'])
    if o['mass_threshold_sis'] is not None:
        r = extended(r).SIS_injection(o['mass_threshold_sis'])
    return r


def projected(rhos, rs, R):
    """surface density of an NFW halo, by quadrature"""
    return 2 * integrate.quad(lambda s: R * np.cosh(s) * rhos / ((R * np.cosh(s) / rs) * (1 + R * np.cosh(s) / rs) ** 2), 0, 40, limit=300)[0]


def ULDM(zl, zs, log10_m, log10_fluc_amplitude=-0.8, fluctuation_size_scale=0.05, fluctuation_size_dispersion=0.2, n_fluc_scale=1.0, velocity_scale=200,
         log10_sigma_sub=-1.0, mdef_halos='ULDM', uldm_plaw=1 / 3, flucs=True, flucs_shape='aperture', flucs_args={}, n_cut=50000, r_ein=1.0, log_mlow=6.0, **given):
    from pyHalo.pyhalo import pyHalo
    m22 = 10 ** log10_m / 1e-22
    k = dict(given)
    for w, name in (('subhalos', 'SHMF_SCHIVE2016'), ('fieldhalos', 'SCHIVE2016')):
        k.setdefault('mass_function_model_' + w, name)
        k.setdefault('concentration_model_' + w, 'LAROCHE2022')
    ap = pyHalo(zl, zs, dict(k['kwargs_cosmo']) if k.get('kwargs_cosmo') else None).astropy_cosmo

    def zeta(z):
        return (18 * np.pi ** 2 + 82 * (ap.Om(z) - 1) - 39 * (ap.Om(z) - 1) ** 2) / ap.Om(z)

    def mlow(z):
        return max(log_mlow, np.log10((1 + z) ** 0.75 * (zeta(z) / zeta(0)) ** 0.25 * 4.4e7 * m22 ** -1.5))
    r = WDM(zl, zs, np.log10(1.6e10 * m22 ** (-4 / 3)), log_mlow=mlow, log10_sigma_sub=log10_sigma_sub, mdef_subhalos=mdef_halos, mdef_field_halos=mdef_halos,
            kwargs_density_profile={'log10_m_uldm': log10_m, 'scale_nfw': True, 'uldm_plaw': uldm_plaw}, **k)
    if not flucs:
        return r
    lc = r.lens_cosmo
    lam = 1.2 / m22 * 100 / velocity_scale
    from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
    c = ConcentrationDiemerJoyce(ap)
    host = k.get('log_m_host', 13.3)

    def sigma(m, c, z, rein):
        rhos, rs, _ = lc.NFW_params_physical(m, c, z)
        return projected(rhos, rs, rein * refs.kpa(ap, z))
    ref = sigma(10 ** 13.3, c.nfw_concentration(10 ** 13.3, zl), 0.5, 1.0)
    here = sigma(10 ** host, c.nfw_concentration(10 ** host, zl), zl, r_ein)
    amp = 10 ** log10_fluc_amplitude * m22 ** -0.5 * (refs.scrit(ap, 0.5, 2.0) / refs.scrit(ap, zl, zs)) * here / ref
    return extended(r).add_ULDM_fluctuations(lam, amp, lam * fluctuation_size_scale, lam * fluctuation_size_scale * fluctuation_size_dispersion, n_cut, n_fluc_scale,
                                             flucs_shape, flucs_args)


def sidm_base(zl, zs, k, keep):
    o = {q: v for q, v in k.items() if q in D_CDM}
    for w in ('subhalos', 'fieldhalos'):
        o.setdefault('concentration_model_' + w, 'DIEMERJOYCE19')
    if not keep:
        o.pop('add_globular_clusters', None)
        o.pop('kwargs_globular_clusters', None)
    return CDM(zl, zs, **o)


def SIDM_core_collapse(zl, zs, ranges_sub, ranges_field, p_sub, p_field, **k):
    k = dict({'mass_threshold_sis': 5e10, 'galaxy_model': 'GNFW'}, **k)
    profile = k.get('collapsed_halo_profile', 'TNFWC')
    e = extended(sidm_base(zl, zs, k, True))
    idx = e.core_collapse_by_mass(ranges_sub, ranges_field, p_sub, p_field)
    return e.add_core_collapsed_halos(idx, profile, **{q: v for q, v in k.items() if q not in D_CDM and q != 'collapsed_halo_profile'})


def SIDM_parametric(zl, zs, ranges, sigma, log10_subhalo_time_scaling=0.0, evolving_SIDM_profile=True, x_core_halo=None, **k):
    r = extended(sidm_base(zl, zs, k, False)).toSIDM_from_cross_section(ranges, sigma, log10_subhalo_time_scaling, evolving_SIDM_profile, x_core_halo)
    if k.get('add_globular_clusters'):
        r = extended(r).add_globular_clusters(**k['kwargs_globular_clusters'])
    return r


def SIDM_parametric_fixedbins(zl, zs, s1, s2, log10_subhalo_time_scaling=0.0, evolving_profile=True, **k):
    return SIDM_parametric(zl, zs, [[k.get('log_mlow', 6.0), 8.0], [8.0, k.get('log_mhigh', 10.0)]], [s1, s2], log10_subhalo_time_scaling, evolving_SIDM_profile=evolving_profile, **k)


def CDM_plus_BH(zl, zs, ratio, occupation, log10_mlow_halos_subres=5.0, log10_min_mbh=4.5, log10_mass_maximum=6.7, add_globular_clusters=False,
                kwargs_globular_clusters=None, **k):
    r = CDM(zl, zs, **k)
    r = r.join(extended(r).add_black_holes(ratio, 10 ** occupation, log10_mlow_halos_subres, log10_min_mbh, k.get('log_mlow', 6.0), log10_mass_maximum,
                                           k.get('LOS_normalization', 1.0)))
    if add_globular_clusters:
        r = extended(r).add_globular_clusters(**kwargs_globular_clusters)
    return r


def CDMBinned(zl, zs, sigma_sub=0.1, log10_sigma_sub=None, log10_mc_low=1.3, log10_mc_high=1.15, scale_mass_function_low=1.0, scale_mass_function_high=1.0,
              beta=0.7, zeta=-0.4, concentration_scatter_dex=0.2, c_host=6.0, halo_mass_profile='TNFW', **given):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    o = options(SHARED, given)
    a = assembly(zl, zs, o)
    bins = [[6, 8], [8, 10.7]]
    c = [a.concentration('BINNED_HALO_MASS', log10_mass_bins=bins, normalization_list=[10 ** log10_mc_low, 10 ** log10_mc_high], beta_list=[beta, beta],
                         zeta_list=[zeta, zeta], redshift_evolution='RHO_CRIT', scatter_dex=concentration_scatter_dex) for _ in range(2)]
    a.models(c[0], c[1], *truncated(a, o, c_host))
    s0 = 10 ** log10_sigma_sub if log10_sigma_sub is not None else sigma_sub
    scales = (scale_mass_function_low, scale_mass_function_high)
    mass = [{'log_mlow': b[0], 'log_mhigh': b[1], 'draw_poisson': True, 'delta_power_law_index': 0.0} for b in bins]
    for m, s in zip(mass, scales):
        a.subhalos(CDMPowerLaw, dict(m, sigma_sub=s * s0, power_law_index=o['shmf_log_slope'], host_scaling_factor=o['host_scaling_factor'],
                                     redshift_scaling_factor=o['redshift_scaling_factor']), 'UNIFORM', None, None)
    for pop in ('LINE_OF_SIGHT', 'TWO_HALO'):
        for m, s in zip(mass, scales):
            a.field(pop, ShethTormen, dict(m, LOS_normalization=s * o['LOS_normalization']))
    r = a.render(halo_mass_profile, spacing=o['lens_plane_spacing'])
    if o['add_globular_clusters']:
        r = extended(r).add_globular_clusters(**o['kwargs_globular_clusters'])
    return r


def CDMCorrelatedStructure(zl, zs, log_mlow=6.0, log_mhigh=10.0, concentration_model='LUDLOW2016', kwargs_concentration_model={}, truncation_model='TRUNCATION_RN',
                           kwargs_truncation_model={}, cone_opening_angle_arcsec=6.0, log_m_host=13.3, LOS_normalization=1.0, delta_power_law_index=0.0,
                           geometry_type='DOUBLE_CONE', kwargs_cosmo=None, scale_2halo_boost_factor=1.0, mass_threshold_sis=5e10):
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    a = Assembly(zl, zs, kwargs_cosmo, cone_opening_angle_arcsec, geometry_type, 'HYBRID_INFALL', {}, log_m_host)
    c = a.concentration(concentration_model, **kwargs_concentration_model)
    t = a.truncation(truncation_model, kwargs_truncation_model, None)
    a.models(c, c, t, t)
    a.field('TWO_HALO', ShethTormen, {'log_mlow': log_mlow, 'log_mhigh': log_mhigh, 'delta_power_law_index': delta_power_law_index, 'LOS_normalization': LOS_normalization})
    r = a.render('TNFW', boost=scale_2halo_boost_factor)
    return r if mass_threshold_sis is None else extended(r).SIS_injection(mass_threshold_sis)


def DMEmulator(zl, zs, function, cone_opening_angle_arcsec=8.0):
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.single_realization import Realization
    from pyHalo.Halos.HaloModels.TNFWFromParams import TNFWFromParams as T
    p = pyHalo(zl, zs)
    m, c, _, z, rt, x, y = [np.asarray(v, float) for v in function()]
    rho = p.astropy_cosmo.critical_density(zl).to('Msun/kpc3').value
    rv = (3 * m / (4 * np.pi * 200 * rho)) ** (1 / 3)
    halos = [T(m[i], 1e3 * x[i], 1e3 * y[i], None, zl, True, p.lens_cosmo,
               {T.KEY_RHO_S: 200 / 3 * rho * c[i] ** 3 / (np.log(1 + c[i]) - c[i] / (1 + c[i])), T.KEY_RS: rv[i] / c[i], T.KEY_RT: 1e3 * rt[i], T.KEY_RV: rv[i],
                T.KEY_Z_INFALL: z[i], T.KEY_ID: 'TNFW'}) for i in range(len(m))]
    return Realization.from_halos(halos, p.lens_cosmo, kwargs_halo_model={}, msheet_correction=False, rendering_classes=None,
                                  geometry=Geometry(p.cosmology, zl, zs, cone_opening_angle_arcsec, 'DOUBLE_CONE'))


def JointLOSWithEmulator(zl, zs, function, theta, los, **k):
    sub = DMEmulator(zl, zs, function, theta)
    k = dict(k, cone_opening_angle_arcsec=theta)
    return sub.join(CDM(zl, zs, **k) if los == 'CDM' else WDM(zl, zs, k.pop('log_mc'), **k))


REFERENCE = dict(CDM=CDM, WDM=WDM, WDM_mixed=WDM_mixed, WDMGeneral=WDMGeneral, ULDM=ULDM, SIDM_core_collapse=SIDM_core_collapse, SIDM_parametric=SIDM_parametric,
                 SIDM_parametric_fixedbins=SIDM_parametric_fixedbins, CDM_plus_BH=CDM_plus_BH, CDMBinned=CDMBinned, CDMCorrelatedStructure=CDMCorrelatedStructure,
                 DMEmulator=DMEmulator, JointLOSWithEmulator=JointLOSWithEmulator)


# -- further random arguments ------------------------------------------------------------------------------------------------------
def extra(rng, name, a, k):
    few = {'sigma_sub': u(rng, 0.005, 0.05), 'log_mlow': u(rng, 7.0, 7.8, 2), 'LOS_normalization': u(rng, 0.1, 0.8, 2), 'cone_opening_angle_arcsec': u(rng, 2, 5, 2)}

    def maybe(**more):
        for q, v in more.items():
            if rng.integers(0, 2):
                k[q] = v
    full = name in ('CDM', 'WDM', 'WDMGeneral', 'SIDM_core_collapse')
    if full:
        maybe(host_scaling_factor=u(rng, 0, 1, 2), redshift_scaling_factor=u(rng, 0, 1, 2), two_halo_Lazar_correction=bool(rng.integers(0, 2)),
              c_host=pick(rng, None, u(rng, 3, 9, 2)))
        if rng.integers(0, 2):
            k.update(pick(rng, {'log10_sigma_sub': u(rng, -2, -1.3, 2)}, {'log10_dNdA': u(rng, -2.5, -1.5, 2)}))
    if name in ('SIDM_parametric', 'SIDM_parametric_fixedbins') and rng.integers(0, 2):
        k.update(pick(rng, {'log10_sigma_sub': u(rng, -2, -1.3, 2)}, {'log10_dNdA': u(rng, -2.5, -1.5, 2)}))
    if name in ('CDM', 'WDM', 'WDMGeneral', 'WDM_mixed', 'ULDM'):
        maybe(r_tidal=u(rng, 0.05, 1, 2))
    if name in ('CDM', 'WDM', 'SIDM_core_collapse'):
        maybe(draw_poisson=bool(rng.integers(0, 2)))
    if name in ('CDM', 'WDM', 'CDMBinned'):
        maybe(lens_plane_spacing=pick(rng, 0.03, 0.05))
    if name == 'CDM':
        maybe(delta_power_law_index=u(rng, -0.2, 0.2, 2), two_halo_contribution=bool(rng.integers(0, 2)))
        if rng.integers(0, 3) == 0:
            k.update(mass_threshold_sis=10 ** u(rng, 8, 9, 2), galaxy_model=pick(rng, 'SIS', 'GNFW'))
        elif rng.integers(0, 3) == 0:
            k['halo_mass_profile'] = 'NFW'
        if k.get('halo_mass_profile') == 'NFW':      # galaxies are declared to be made from TNFW halos only
            k.pop('mass_threshold_sis', None)
        if rng.integers(0, 3) == 0:
            k['subhalo_spatial_distribution'] = 'PROJECTED_NFW'
    if name in ('WDM', 'WDMGeneral'):
        maybe(subhalo_spatial_distribution='UNIFORM')
    if name in ('WDM', 'WDMGeneral', 'SIDM_core_collapse'):
        maybe(mass_threshold_sis=pick(rng, None, 10 ** u(rng, 8, 9, 2)))
        if name == 'SIDM_core_collapse' and k.get('mass_threshold_sis') is not None:
            k['galaxy_model'] = pick(rng, 'SIS', 'GNFW')
            k['mass_threshold_sis'] = 10 ** 9.9
    if name == 'WDM':
        k['kwargs_concentration_model_fieldhalos'] = pick(rng, {}, {'scatter_dex': 0.1})
        k['concentration_model_fieldhalos'] = pick(rng, 'BOSE2016', 'BOSE2016_LUDLOW', 'WDM_POLYNOMIAL')
    if name == 'ULDM':
        maybe(log10_sigma_sub=pick(rng, None, u(rng, -2, -1.3, 2)), uldm_plaw=u(rng, 0.2, 0.5, 2), mdef_halos=pick(rng, 'ULDM', 'TNFW'), velocity_scale=u(rng, 120, 260, 0),
              log10_fluc_amplitude=u(rng, -1.5, -0.5, 2), fluctuation_size_scale=u(rng, 0.03, 0.1, 3), fluctuation_size_dispersion=u(rng, 0.1, 0.4, 2),
              n_fluc_scale=u(rng, 0.3, 1.2, 2), r_ein=pick(rng, u(rng, 0.6, 1.6, 2), u(rng, 4, 8, 2)))
    if name == 'CDM_plus_BH':
        maybe(log10_mass_maximum=u(rng, 6.0, 6.7, 1), log10_sigma_sub=u(rng, -2, -1.5, 2))
        k['log10_mlow_halos_subres'] = u(rng, 6.2, 6.6, 2)
        k['log10_min_mbh'] = u(rng, 3.8, 5.2, 2)
        a = a[:2] + (u(rng, -2.5, -1.5, 2), u(rng, -0.3, 0, 2))
    if name == 'WDM_mixed':
        for w in ('subhalos', 'fieldhalos'):
            few_abc = {'a_wdm': u(rng, 0.3, 2, 2), 'b_wdm': u(rng, 0.5, 1.5, 2), 'c_wdm': u(rng, -4, -1, 2)}
            k['kwargs_mass_function_' + w] = {q: v for q, v in few_abc.items() if rng.integers(0, 2)}
    if name == 'CDMBinned':
        maybe(log10_sigma_sub=u(rng, -2.6, -2.2, 2), log10_mc_low=u(rng, 1.0, 1.5, 2), log10_mc_high=u(rng, 1.0, 1.5, 2), scale_mass_function_low=u(rng, 0.4, 1.3, 2),
              scale_mass_function_high=u(rng, 0.4, 1.5, 2), beta=u(rng, 0.4, 0.9, 2), zeta=u(rng, -0.6, 0.1, 2), concentration_scatter_dex=u(rng, 0.05, 0.25, 2),
              c_host=u(rng, 3, 8, 1))
    if name == 'CDMCorrelatedStructure':
        maybe(scale_2halo_boost_factor=u(rng, 0.5, 2, 2), delta_power_law_index=u(rng, -0.2, 0.2, 2), concentration_model=pick(rng, 'DIEMERJOYCE19', 'LUDLOW2016'),
              truncation_model=pick(rng, 'TRUNCATION_R200', 'SPLASHBACK'), mass_threshold_sis=pick(rng, None, 10 ** u(rng, 8, 9, 1)))
    if name not in ('DMEmulator', 'JointLOSWithEmulator', 'CDMBinned', 'CDMCorrelatedStructure'):
        for q, v in few.items():
            if q in k or q == 'log_mlow':
                k[q] = v
    if name == 'SIDM_parametric_fixedbins':
        k.update(log_mlow=u(rng, 7.7, 7.95, 2), log_mhigh=10.8, cone_opening_angle_arcsec=14.0, sigma_sub=0.05)
    if name == 'JointLOSWithEmulator' and rng.integers(0, 2):
        k = dict(sigma_sub=0.0, log_mlow=7.2, log_mc=u(rng, 6, 8, 2))
        a = a[:4] + ('WDM',)
    return a, k


def everything(rng, name, turn):
    """a call in which every optional argument differs from its default; alternatives that exclude each other take turns"""
    from pyHalo.Halos.concentration import ConcentrationLudlow
    fn, a, k = preset_config(rng, name)
    a, k = extra(rng, name, a, dict(k))
    takes = inspect.signature(fn).parameters
    wdm = name in ('WDM', 'WDM_mixed', 'ULDM')
    sidm = name.startswith('SIDM')
    v = dict(sigma_sub=u(rng, 0.005, 0.05), log_mlow=u(rng, 7.1, 7.6, 2), log_mhigh=u(rng, 8.8, 9.7, 2), cone_opening_angle_arcsec=u(rng, 3, 5, 2), log_m_host=u(rng, 12.8, 13.7, 2),
             LOS_normalization=u(rng, 0.2, 0.8, 2), geometry_type=('CYLINDER', 'CONE')[turn], shmf_log_slope=u(rng, -1.96, -1.84, 3), r_tidal=u(rng, 0.4, 1, 2),
             host_scaling_factor=u(rng, 0, 0.4, 2), redshift_scaling_factor=u(rng, 0.5, 1, 2), two_halo_Lazar_correction=False, c_host=u(rng, 3, 9, 2),
             kwargs_cosmo={'H0': u(rng, 60, 75, 1), 'Om0': u(rng, 0.25, 0.35, 3), 'Ob0': 0.045, 'Odm0': None, 'sigma8': u(rng, 0.75, 0.9, 2), 'ns': 0.95, 'flat': True, 'power_law': False},
             log10_sigma_sub=u(rng, -2, -1.5, 2), draw_poisson=bool(turn), two_halo_contribution=not turn, lens_plane_spacing=0.035,
             delta_power_law_index=u(rng, 0.05, 0.15, 2) * (-1) ** turn)
    v['kwargs_cosmo']['Odm0'] = round(v['kwargs_cosmo']['Om0'] - 0.045, 3)
    if turn and 'log10_dNdA' in takes:
        v['log10_dNdA'] = u(rng, -2.5, -2, 2)
    v['truncation_model_subhalos'], v['kwargs_truncation_model_subhalos'] = (('MULTIPLE_RS', {'tau': u(rng, 1, 4, 1)}), ('TRUNCATION_RN', {'LOS_truncation_factor': u(rng, 60, 150, 0)}))[turn]
    v['truncation_model_fieldhalos'], v['kwargs_truncation_model_fieldhalos'] = (('TRUNCATION_RN', {'LOS_truncation_factor': u(rng, 20, 45, 0)}), ('MULTIPLE_RS', {'tau': u(rng, 5, 9, 1)}))[turn]
    if name == 'CDMCorrelatedStructure':
        v['truncation_model'], v['kwargs_truncation_model'] = v['truncation_model_fieldhalos'], v['kwargs_truncation_model_fieldhalos']
        v['concentration_model'], v['kwargs_concentration_model'] = (('DIEMERJOYCE19', {'scatter': False}), ('LUDLOW2016', {'scatter_dex': 0.35}))[turn]
        v.update(scale_2halo_boost_factor=u(rng, 0.4, 0.8, 2), mass_threshold_sis=(None, 10 ** u(rng, 8, 9, 1))[turn])
    v['infall_redshift_model'], v['kwargs_infall_model'] = 'DIRECT_INFALL', ({'log_m_host': u(rng, 12.6, 13.8, 1)}, {'m_host': 10 ** u(rng, 12.6, 13.8, 1)})[turn]
    if wdm:
        m = {'concentration_cdm_class': ConcentrationLudlow, 'c_scale': u(rng, 5, 40, 1), 'c_power': u(rng, -0.4, -0.1, 2), 'c_power_inner': u(rng, 0.8, 1.5, 2), 'scatter_dex': u(rng, 0.05, 0.12, 2)}
        one, two = ('WDM_POLYNOMIAL', m), ('BOSE2016_LUDLOW', {'scatter_dex': u(rng, 0.25, 0.35, 2)})
    else:
        one, two = ('PEAK_HEIGHT_POWERLAW', {'c0': u(rng, 15, 20, 1), 'zeta': u(rng, -0.6, -0.2, 2), 'beta': u(rng, 0.6, 1, 2)}), \
                   ('DIEMERJOYCE19' if name == 'CDM' or not sidm else 'LUDLOW2016', {'scatter': False})
    for w, q in zip(('subhalos', 'fieldhalos'), (one, two)[::(-1) ** turn]):
        v['concentration_model_' + w], v['kwargs_concentration_model_' + w] = q
    if name == 'CDM':
        v.update(subhalo_spatial_distribution='PROJECTED_NFW', galaxy_model=('SIS', 'GNFW')[turn], halo_mass_profile=('TNFW', 'NFW')[turn], mass_threshold_sis=(10 ** u(rng, 8, 9, 2), None)[turn])
    if name in ('WDM', 'WDMGeneral'):
        v.update(subhalo_spatial_distribution='UNIFORM', mdef_subhalos=('TNFW', 'ULDM')[turn], mdef_field_halos=('TNFW', 'NFW')[turn],
                 kwargs_density_profile={'log10_m_uldm': u(rng, -21.4, -20.9, 2), 'uldm_plaw': 1 / 3, 'scale_nfw': bool(turn)}, mass_threshold_sis=(10 ** u(rng, 8, 9, 2), None)[turn])
        if not turn:
            v['subhalo_spatial_distribution'] = 'PROJECTED_NFW'
    if name in ('WDM', 'ULDM'):
        for w, q in (('subhalos', 'POWER_LAW_TURNOVER_SHMF'), ('fieldhalos', 'POWER_LAW_TURNOVER')):
            v['mass_function_model_' + w], v['kwargs_mass_function_' + w] = q, {'a_wdm': u(rng, 0.5, 2, 2), 'b_wdm': u(rng, 0.6, 1.2, 2), 'c_wdm': u(rng, -2, -0.5, 2)}
    if name == 'WDM_mixed':
        for w in ('subhalos', 'fieldhalos'):
            v['kwargs_mass_function_' + w] = {'a_wdm': u(rng, 0.8, 2, 2), 'b_wdm': u(rng, 0.9, 1.5, 2), 'c_wdm': u(rng, -2.5, -1, 2)}
    if name == 'ULDM':
        v.update(log10_fluc_amplitude=u(rng, -1.5, -1, 2), fluctuation_size_scale=u(rng, 0.06, 0.1, 3), fluctuation_size_dispersion=u(rng, 0.25, 0.4, 2), n_fluc_scale=u(rng, 0.4, 0.8, 2),
                 velocity_scale=u(rng, 130, 180, 0), uldm_plaw=u(rng, 0.2, 0.5, 2), flucs=True, flucs_shape=('ring', 'ellipse')[turn], n_cut=400, r_ein=u(rng, 0.6, 0.9, 2), mdef_halos='TNFW',
                 flucs_args=({'rmin': 0.8, 'rmax': 0.9}, {'amin': 0.8, 'amax': 0.9, 'bmin': 0.9, 'bmax': 1.1, 'angle': 0.4})[turn])
    if name == 'SIDM_core_collapse':
        v.update(galaxy_model='SIS', mass_threshold_sis=10 ** 9.3)
    if name.startswith('SIDM_parametric'):
        v.update(log10_subhalo_time_scaling=u(rng, -0.3, -0.1, 2) * (-1) ** turn, x_core_halo=u(rng, 0.02, 0.08, 3), evolving_SIDM_profile=bool(turn), evolving_profile=bool(turn))
    if name == 'SIDM_parametric_fixedbins':
        v.update(log_mlow=u(rng, 7.5, 7.8, 2), log_mhigh=10.3, cone_opening_angle_arcsec=9.0)
    if name == 'CDM_plus_BH':
        v.update(log10_mass_maximum=u(rng, 6.3, 6.6, 2))
    if name == 'CDMBinned':
        v.update(sigma_sub=0.004, log10_sigma_sub=u(rng, -2.6, -2.2, 2), log10_mc_low=u(rng, 1.0, 1.1, 2), log10_mc_high=u(rng, 1.3, 1.5, 2), scale_mass_function_low=u(rng, 0.4, 0.8, 2), LOS_normalization=0.05,
                 scale_mass_function_high=u(rng, 1.2, 1.5, 2), beta=u(rng, 0.4, 0.6, 2), zeta=u(rng, -0.3, 0.1, 2), concentration_scatter_dex=u(rng, 0.05, 0.15, 2), halo_mass_profile='NFW')
    v['add_globular_clusters'] = True
    v['kwargs_globular_clusters'] = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.4, 'rendering_radius_arcsec': 0.2, 'gc_surface_mass_density': 10 ** 5.0, 'center_x': 0.4, 'center_y': -0.2}
    fixed = {'log_mlow', 'log_mhigh', 'concentration_model_subhalos', 'concentration_model_fieldhalos'} if name == 'CDMBinned' else set()
    k.update({q: w for q, w in v.items() if q in list(takes)[len(a):] and q not in fixed})
    # the same for the positional options of some presets
    if name == 'DMEmulator':
        k['cone_opening_angle_arcsec'] = u(rng, 4, 7.5, 1)
    if name == 'JointLOSWithEmulator':
        own = {q: v[q] for q in ('log_mlow', 'log_mhigh', 'LOS_normalization', 'geometry_type', 'shmf_log_slope', 'log_m_host', 'r_tidal', 'truncation_model_fieldhalos',
                                 'kwargs_truncation_model_fieldhalos')}
        k, a = dict(own, sigma_sub=0.0), a[:4] + (('CDM', 'WDM')[turn],)
        if turn:
            k['log_mc'] = u(rng, 6, 8, 2)
    return fn, a, k


# -- monitors ----------------------------------------------------------------------------------------------------------------------
def content(ck, name, a, k, real, label):
    """what is promised about the objects whatever the model"""
    zl, zs = a[0], a[1]
    lc = real.lens_cosmo
    ck.expect(lc.z_lens == zl and lc.z_source == zs, 'lens_and_source_redshift', got=(lc.z_lens, lc.z_source), **label)
    c = k.get('kwargs_cosmo') or {'H0': 67.5, 'Om0': 0.309, 'Ob0': 0.049, 'sigma8': 0.81, 'ns': 0.965}
    ap, col = lc.cosmo.astropy, lc.cosmo.colossus
    ck.close([ap.H0.value, ap.Om0, ap.Ob0, col.H0, col.Om0, col.sigma8, col.ns], [c['H0'], c['Om0'], c['Ob0'], c['H0'], c['Om0'], c['sigma8'], c['ns']],
             'cosmology_of_the_realization', rtol=1e-9, **label)
    theta = k.get('cone_opening_angle_arcsec', a[3] if name == 'JointLOSWithEmulator' else 8.0 if name == 'DMEmulator' else 6.0)
    geo = k.get('geometry_type', 'DOUBLE_CONE')
    ck.expect(real.geometry.cone_opening_angle == theta, 'opening_angle_of_the_realization', got=real.geometry.cone_opening_angle, want=theta, **label)
    shape = refs.Shape(ap, zl, zs, theta, geo)
    ours = [h for h in real.halos if h.mdef not in ('GAUSSIAN_KAPPA', 'PT_MASS') and 'Globular' not in type(h).__name__ and 'FromParams' not in type(h).__name__]
    low, high = k.get('log_mlow', 6.0), k.get('log_mhigh', 10.0)
    if name == 'CDMBinned':
        low, high = 6.0, 10.7
    cache = {}
    out, wrong, where = None, None, None
    for h in ours:
        if not (10 ** low * (1 - 1e-9) <= h.mass <= 10 ** high * (1 + 1e-9)):
            wrong = (h.mdef, np.log10(h.mass))
        if h.is_subhalo and h.z != zl or not 0 < h.z < zs:
            where = (h.mdef, h.z, h.is_subhalo)
        z = float(h.z)
        if z not in cache:
            cache[z] = shape.rmax_arcsec(z)
        if np.hypot(h.x, h.y) > cache[z] * (1 + 1e-3) + 1e-9:
            out = (h.mdef, z, np.hypot(h.x, h.y), cache[z])
    ck.expect(wrong is None, 'masses_in_the_requested_range', halo=wrong, **label)
    ck.expect(where is None, 'redshifts_between_observer_and_source', halo=where, **label)
    ck.expect(out is None, 'positions_inside_the_requested_volume', halo=out, **label)
    return len(ours)


def registries(ck, rng):
    from pyHalo.preset_models import preset_model_from_name
    from pyHalo.truncation_models import truncation_models
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.mass_function_models import preset_mass_function_models
    from pyHalo.Halos import concentration as cc
    unknown = ['', 'UNKNOWN', 'CDMM', 'truncation_rn', 'TRUNCATION_R5', 'BOSE2017', 'LOVELL', 'CDM ', 'uniform', 'NFWW', 'HYBRID']

    def raises(key, fn, *a, **k):
        try:
            got = fn(*a, **k)
        except Exception:
            got = None
            ok = True
        else:
            ok = False
        ck.case({'unknown': key, 'args': a, 'kwargs': k})
        ck.expect(ok, 'unknown_names_are_rejected', registry=key, args=a, kwargs=k, got=repr(got)[:100])
    for nm in unknown:
        raises('preset_model_from_name', preset_model_from_name, nm)
        raises('truncation_models', truncation_models, nm)
        raises('preset_concentration_models', preset_concentration_models, nm, {})
        raises('preset_mass_function_models', preset_mass_function_models, nm, {})
    for nm in ('CDM', 'WDM', 'WDM_mixed', 'WDMGeneral', 'ULDM', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins', 'CDM_plus_BH',
               'DMEmulator', 'DMGalacticus', 'JointLOSWithEmulator'):
        want = {'DMEmulator': 'DMSubhalosFromEmulator', 'DMGalacticus': 'DMFromGalacticus'}.get(nm, nm)
        with ck.scenario('preset_by_name', name=nm):
            ck.case({'preset': nm})
            ck.expect(preset_model_from_name(nm).__name__ == want, 'preset_names', name=nm, got=preset_model_from_name(nm).__name__)
    with ck.scenario('custom_preset'):
        f = lambda *a, **k: None
        ck.expect(preset_model_from_name('CUSTOM', f) is f, 'preset_names', name='CUSTOM')
    for nm, (cls, kw) in truncations().items():
        with ck.scenario('truncation_by_name', name=nm):
            ck.case({'truncation': nm})
            got = truncation_models(nm)
            ck.expect(got[0] is cls and set(got[1]) == set(kw) and all(abs(got[1][q] - kw[q]) < 1e-12 for q in kw), 'truncation_registry', name=nm, got=got)
            got[1]['scribble'] = 1
            ck.expect('scribble' not in truncation_models(nm)[1], 'registry_hands_out_fresh_arguments', name=nm)
    with ck.scenario('truncation_by_class'):
        class Own(object):
            pass
        ck.expect(truncation_models(Own)[0] is Own, 'truncation_registry', name='class')
    for nm, (cls, kw) in concentrations().items():
        with ck.scenario('concentration_by_name', name=nm):
            given = {'scatter_dex': 0.07, 'nested': {'a': [1]}}
            ck.case({'concentration': nm})
            got = preset_concentration_models(nm, given)
            ck.expect(got[0] is cls and {q: v for q, v in got[1].items() if q not in given} == kw and got[1]['scatter_dex'] == 0.07, 'concentration_registry', name=nm, got=got)
            ck.expect(given == {'scatter_dex': 0.07, 'nested': {'a': [1]}} and got[1]['nested'] is not given['nested'], 'registry_hands_out_fresh_arguments', name=nm)
            ck.expect(preset_concentration_models(nm)[1] == kw, 'concentration_registry', name=nm, got=preset_concentration_models(nm))
    for x in [0.7, 1.76] + [u(rng, 0.5, 4) for _ in range(4)]:
        with ck.scenario('formation_history', x=x):
            got = preset_concentration_models('FROM_FORMATION_HISTORY', {'dlogT_dlogk': x, 'log_mc': 7.0})
            ck.case({'concentration': 'FROM_FORMATION_HISTORY', 'x': x})
            ck.expect(got[0] is cc.ConcentrationWDMHyperbolic and set(got[1]) == {'a', 'b', 'log_mc'}, 'concentration_registry', name='FROM_FORMATION_HISTORY', got=got)
            ck.close([got[1]['a'], got[1]['b']], [0.75 * (0.7 / x) ** 0.4, 0.94 * abs(np.log(2.36) / np.log(x + 0.6)) ** 0.7], 'formation_history_parameters', rtol=1e-10, x=x)
    with ck.scenario('custom_concentration'):
        class C(object):
            def nfw_concentration(self, m, z):
                return 5.0
        got = preset_concentration_models('CUSTOM', {'custom_class': C, 'q': 1})
        ck.expect(got[0] is C and got[1] == {'q': 1}, 'concentration_registry', name='CUSTOM', got=got)
        raises('preset_concentration_models', preset_concentration_models, 'CUSTOM', {'custom_class': int})
    for nm, (cls, kw) in mass_functions().items():
        with ck.scenario('mass_function_by_name', name=nm):
            given = {'log_mc': 7.1}
            ck.case({'mass function': nm})
            got = preset_mass_function_models(nm, given)
            ck.expect(got[0] is cls and got[1] == dict(kw, log_mc=7.1) and given == {'log_mc': 7.1}, 'mass_function_registry', name=nm, got=got)
            preset_mass_function_models(nm)[1]['scribble'] = 1
            ck.expect(preset_mass_function_models(nm)[1] == kw, 'registry_hands_out_fresh_arguments', name=nm, got=preset_mass_function_models(nm)[1])
    from pyHalo.Rendering.MassFunctions.stucker import stucker_suppression_params
    for nm, (base, _) in (('STUCKER', mass_functions()['POWER_LAW_TURNOVER']), ('STUCKER_SHMF', mass_functions()['POWER_LAW_TURNOVER_SHMF'])):
        x = u(rng, -3, -1)
        with ck.scenario('stucker', x=x):
            got = preset_mass_function_models(nm, {'dlogT_dlogk': x, 'log_mc': 7.0})
            ck.expect(got[0] is base and set(got[1]) == {'a_wdm', 'b_wdm', 'c_wdm', 'log_mc'}, 'mass_function_registry', name=nm, got=got)
            ck.close([got[1][q] for q in ('a_wdm', 'b_wdm', 'c_wdm')], stucker_suppression_params(x), 'mass_function_registry', rtol=1e-12, name=nm)
        raises(nm, preset_mass_function_models, nm, {})
        for q in ('a_wdm', 'b_wdm', 'c_wdm'):
            raises(nm, preset_mass_function_models, nm, {'dlogT_dlogk': x, q: 1.0})
    # names accepted further down
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.single_realization import SingleHalo
    from pyHalo.PresetModels.cdm import CDM as pCDM, CDMBinned as pBinned
    from pyHalo.PresetModels.wdm import WDM as pWDM, WDMGeneral as pGeneral
    p = pyHalo(0.5, 1.5)
    small = dict(log_mlow=9.0, sigma_sub=0.0, LOS_normalization=0.0, cone_opening_angle_arcsec=1.0)
    for nm in ('', 'UNKNOWN', 'DOUBLECONE', 'cone', 'HYBRID', 'TNFWX', 'NFW_', 'LINE_OF_SIGHTS'):
        raises('setup_infall_model', p.lens_cosmo.setup_infall_model, nm, {'log_m_host': 13.0})
        raises('Geometry', Geometry, p.cosmology, 0.5, 1.5, 6.0, nm)
        raises('CDM:geometry_type', pCDM, 0.5, 1.5, geometry_type=nm, **small)
        raises('CDM:subhalo_spatial_distribution', pCDM, 0.5, 1.5, subhalo_spatial_distribution=nm, **small)
        raises('WDM:subhalo_spatial_distribution', pWDM, 0.5, 1.5, 7.0, subhalo_spatial_distribution=nm, c_host=5.0, **small)
        raises('WDMGeneral:subhalo_spatial_distribution', pGeneral, 0.5, 1.5, 7.0, -2.0, subhalo_spatial_distribution=nm, c_host=5.0, **small)
        raises('CDM:halo_mass_profile', pCDM, 0.5, 1.5, halo_mass_profile=nm, **small)
        raises('CDMBinned:halo_mass_profile', pBinned, 0.5, 1.5, halo_mass_profile=nm, LOS_normalization=0.0, sigma_sub=0.0)
        raises('SingleHalo', SingleHalo, 1e8, 0.1, 0.1, nm, 0.5, 0.5, 1.5, None, False, kwargs_halo_model={'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}})
        raises('HaloPopulation', p.render, [nm], [None], [{}], [type('S', (), {'name': 'UNIFORM', '__init__': lambda self, **k: None})], [{}], None, 'TNFW', 'TNFW', {})
    host = u(rng, 12.7, 13.8, 2)
    for nm, kws in (('HYBRID_INFALL', [{'log_m_host': host}, {'m_host': 10 ** host}, {}]), ('DIRECT_INFALL', [{'log_m_host': host}, {'m_host': 10 ** host}, {}]),
                    ('GALACTICUS_2024', [{}]), ('DIRECT_INFALL_CLUSTER', [{'log_m_host': 14.4}, {'m_host': 10 ** 14.4}]), ('INFALL_ZLENS', [{}]), ('INFALL_0', [{}])):
        for kw in kws:
            with ck.scenario('infall_by_name', name=nm, kwargs=kw):
                ck.case({'infall': nm, 'kwargs': kw})
                given = dict(kw)
                p.lens_cosmo.setup_infall_model(nm, given)
                cls = infall_class(nm)
                lm = kw.get('log_m_host', np.log10(kw['m_host']) if 'm_host' in kw else 13.0)
                own = cls() if nm == 'INFALL_0' else cls(0.5, lm) if nm in ('HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER') else cls(0.5)
                s = seed_global('C15infall', nm, repr(kw))
                got = [p.lens_cosmo.z_accreted_from_zlens(1e8) for _ in range(20)]
                np.random.seed(s)
                want = [own(1e8) for _ in range(20)]
                ck.expect(given == kw, 'registry_hands_out_fresh_arguments', name=nm)
                ck.close(np.array(got, float).ravel(), np.array(want, float).ravel(), 'infall_registry', rtol=1e-9, name=nm, kwargs=kw)


def mass_definitions(ck, rng):
    """every mass definition builds the documented object, with the models of its own population"""
    from pyHalo.single_realization import Realization
    from pyHalo.Halos import tidal_truncation as t
    import pyHalo.single_realization as sr
    from worlds import World
    w = World(rng, infall='INFALL_ZLENS')
    from pyHalo.Halos.concentration import ConcentrationConstant
    hm = {'truncation_model_subhalos': t.Multiple_RS(w.lc, 2.0), 'truncation_model_field_halos': t.Multiple_RS(w.lc, 5.0),
          'concentration_model_subhalos': ConcentrationConstant(None, 7.0), 'concentration_model_field_halos': ConcentrationConstant(None, 12.0),
          'kwargs_density_profile': {'gamma_inner': 1.5, 'gamma_outer': 3.1, 'x_match': 10.0, 'log_slope_halo': 3.0, 'x_core_halo': 0.05, 'log10_m_uldm': -21.0, 'uldm_plaw': 1 / 3,
                                     'scale_nfw': False, 'sidm_timescale': 1e9, 'lambda_t': 1.0, 'mass_conservation': 'BOUND', 'amp': 1.0, 'sigma': 0.1}}
    table = {'NFW': ('NFWSubhhalo', 'NFWFieldHalo'), 'TNFW': ('TNFWSubhalo', 'TNFWFieldHalo'), 'TNFWC_SIDM': ('TNFWCHaloEvolving', 'TNFWCHaloEvolving'),
             'PT_MASS': ('BlackHole', 'BlackHole'), 'PJAFFE': ('PJaffeSubhalo', 'PJaffeSubhalo'), 'ULDM': ('ULDMSubhalo', 'ULDMFieldHalo'),
             'GNFW': ('GeneralNFWSubhalo', 'GeneralNFWFieldHalo'), 'SPL_CORE': ('PowerLawSubhalo', 'PowerLawFieldHalo')}
    for _ in range(6 if THOROUGH else 3):
        names = [str(n) for n in rng.permutation(list(table)) for _ in range(2)]
        sub = [bool(b) for b in rng.integers(0, 2, len(names))]
        sub[::2] = [not s for s in sub[1::2]]
        zf = w.planes[len(w.planes) // 2]
        z = [w.zl if s else zf for s in sub]
        m = 10 ** rng.uniform(7, 9, len(names))
        x, y = rng.normal(size=(2, len(names)))
        with ck.scenario('mass_definitions', names=names, sub=sub):
            ck.case({'mdefs': names, 'sub': sub})
            r = Realization(m, x, y, np.full(len(names), 20.0), names, z, sub, w.lc, kwargs_halo_model=hm, mass_sheet_correction=False, rendering_classes=[], geometry=w.geo)
            for i, h in enumerate(r.halos):
                lab = dict(mdef=names[i], sub=sub[i])
                ck.expect(type(h).__name__ == table[names[i]][0 if sub[i] else 1], 'mass_definition_builds_its_class', got=type(h).__name__, **lab)
                ck.expect(h.mass == m[i] and h.x == x[i] and h.y == y[i] and h.z == z[i] and bool(h.is_subhalo) == sub[i], 'mass_definition_keeps_the_halo', **lab)
                if names[i] in ('NFW', 'TNFW', 'ULDM', 'TNFWC_SIDM'):
                    ck.expect(abs(h.c - (7.0 if sub[i] else 12.0)) < 1e-12, 'halo_uses_the_concentration_model_of_its_population', got=h.c, **lab)
                if names[i] == 'TNFW':
                    ck.close(h.profile_args[1], (2.0 if sub[i] else 5.0) * h.nfw_params[1], 'halo_uses_the_truncation_model_of_its_population', rtol=1e-9, **lab)


def body(ck):
    import pyHalo.PresetModels.cdm as pc
    from pyHalo.preset_models import preset_model_from_name
    rng = rng_for('C15')
    with ck.scenario('registries'):
        registries(ck, rng)
    with ck.scenario('mass_definitions'):
        mass_definitions(ck, rng)
    halos, optional, given = {}, {}, {}
    distinct = sorted(set(PRESETS))
    plan = [(name, turn) for turn in (0, 1) for name in distinct] + [(name, None) for _ in range(ROUNDS) for name in PRESETS]
    for k, (name, turn) in enumerate(plan):
        if ck.out_of_time(0.9):
            break
        r = rng_for('C15', k)
        if turn is not None:
            fn, a, kw = everything(r, name, turn)
        else:
            fn, a, kw = preset_config(r, name)
            a, kw = extra(r, name, a, dict(kw))
        p = inspect.signature(fn).parameters
        optional[name] = {q for q in p if p[q].default is not p[q].empty}
        given.setdefault(name, set()).update(q for q in kw if q in p and repr(kw[q]) != repr(p[q].default))
        label = dict(name=name, args=[v for v in a if not callable(v)], kwargs=kw)
        with ck.scenario(name, turn=turn, **label):
            s = seed_global('C15', k)
            real = fn(*a, **kw)
            got = dict(zip(('rows', 'lens'), read(real, s)))
            n = content(ck, name, a, kw, real, dict(label))
            seed_global('C15', k)
            want_real = REFERENCE[name](*a, **kw)
            want = dict(zip(('rows', 'lens'), read(want_real, s)))
            ck.case(label, len(got['rows']) > 0)
            halos.setdefault(name, []).append(len(got['rows']))
            # the reference amplitude of ULDM fluctuations uses exact distances instead of the distance tables
            d = differ(got, want, 2e-3 if name == 'ULDM' and kw.get('flucs', True) else 5e-6)
            ck.expect(d is None, 'preset_is_the_documented_model', difference=d, **label)
    # options known to be broken (see known_findings.txt)
    for name, a in (('WDM', (0.5, 1.5, 7.0)), ('WDMGeneral', (0.5, 1.5, 7.0, -2.0))):
        with ck.scenario('include_prompt_cusps', name=name):
            ck.case({'prompt cusps': name})
            preset_model_from_name(name)(*a, include_prompt_cusps=True, log_mlow=8.0, LOS_normalization=0.1, c_host=5.0)
    with ck.scenario('uldm_amplitude'):
        ck.case({'uldm': 'sigma_sub=0'})
        real = preset_model_from_name('ULDM')(0.5, 1.5, -21.0, sigma_sub=0.0, log_mlow=7.0, LOS_normalization=0.1, flucs=False)
        ck.expect(not any(h.is_subhalo for h in real.halos), 'uldm_uses_sigma_sub', subhalos=sum(bool(h.is_subhalo) for h in real.halos))
    ck.note('optional_arguments_never_varied', {q: sorted(optional[q] - given[q] - {'include_prompt_cusps'}) for q in optional})
    ck.note('halos_per_preset', {q: [len(v), int(sum(v))] for q, v in halos.items()})


if __name__ == '__main__':
    vf.main('C15', RULE, body)
