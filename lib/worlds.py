"""random lens systems, halo specifications (so that identical twins of a halo can be built) and realizations"""
import copy
import numpy as np
from astropy.cosmology import FlatLambdaCDM
from vf import seed_global

SIMPLE = ['TNFW_FIELD', 'TNFW_SUB', 'NFW_FIELD', 'NFW_SUB', 'GNFW_FIELD', 'GNFW_SUB', 'SPL_FIELD', 'SPL_SUB', 'PJAFFE', 'CNFW',
          'TNFWC', 'TNFWC_EVOLVING', 'CORE_COLLAPSED', 'CORE_COLLAPSED_BH', 'BH', 'GAUSSIAN', 'HYBRID', 'SIS', 'MASSIVE_GALAXY', 'GC',
          'FROM_PARAMS', 'EMULATOR']
ALL = SIMPLE + ['ULDM_FIELD', 'ULDM_SUB']
SUBTYPES = {'TNFW_SUB', 'NFW_SUB', 'GNFW_SUB', 'SPL_SUB', 'PJAFFE', 'FROM_PARAMS', 'EMULATOR', 'ULDM_SUB'}
ANYTYPES = {'CNFW', 'TNFWC', 'TNFWC_EVOLVING', 'CORE_COLLAPSED', 'CORE_COLLAPSED_BH', 'HYBRID', 'SIS', 'MASSIVE_GALAXY'}
N_COMPONENTS = {'HYBRID': 2, 'ULDM_FIELD': 2, 'ULDM_SUB': 2}


class World(object):

    def __init__(self, rng, infall='HYBRID_INFALL', scatter=False):
        from pyHalo.Cosmology.cosmology import Cosmology
        from pyHalo.Cosmology.geometry import Geometry
        from pyHalo.Halos.lens_cosmo import LensCosmo
        from pyHalo.utilities import generate_lens_plane_redshifts
        self.rng = rng
        self.H0, self.Om0 = float(rng.uniform(62, 77)), float(rng.uniform(0.22, 0.38))
        self.ap = FlatLambdaCDM(H0=self.H0, Om0=self.Om0, Ob0=0.049)
        self.zl = round(float(rng.uniform(0.25, 0.9)), 2)
        self.zs = round(self.zl + float(rng.uniform(0.5, 1.8)), 2)
        self.theta = float(rng.uniform(4, 9))
        self.kwargs_cosmo = {'H0': self.H0, 'Om0': self.Om0, 'Ob0': 0.049, 'sigma8': 0.81, 'ns': 0.965, 'power_law': False,
                             'flat': True}
        self.cosmo = Cosmology(cosmo_kwargs=dict(self.kwargs_cosmo))
        self.log_m_host = float(rng.uniform(12.7, 13.6))
        self.lc = LensCosmo(self.zl, self.zs, self.cosmo, infall, {'log_m_host': self.log_m_host})
        self.geo = Geometry(self.cosmo, self.zl, self.zs, self.theta, str(rng.choice(['DOUBLE_CONE', 'CYLINDER', 'CONE'])))
        self.planes, self.dz = generate_lens_plane_redshifts(self.zl, self.zs)
        self.planes = [float(z) for z in self.planes]
        self.tag = 0
        self._c, self._t = {}, {}
        self.scatter = scatter

    @property
    def label(self):
        return dict(zl=self.zl, zs=self.zs, theta=round(self.theta, 2), H0=round(self.H0, 2), Om0=round(self.Om0, 3),
                    log_m_host=round(self.log_m_host, 2))

    def concentration(self, name='DIEMERJOYCE19', **kw):
        from pyHalo.concentration_models import preset_concentration_models
        key = (name, repr(sorted(kw.items())))
        if key not in self._c:
            k = {'cosmo': self.ap, 'scatter': self.scatter}
            k.update(kw)
            if name == 'PEAK_HEIGHT_POWERLAW':
                k.update(c0=17.0, zeta=-0.2, beta=0.8)
            if name == 'CONSTANT':
                from pyHalo.Halos.concentration import ConcentrationConstant
                self._c[key] = ConcentrationConstant(self.ap, kw['c'])
            else:
                cls, k = preset_concentration_models(name, k)
                self._c[key] = cls(**k)
        return self._c[key]

    def truncation(self, name, **kw):
        from pyHalo.truncation_models import truncation_models
        key = (name, repr(sorted(kw.items())))
        if key not in self._t:
            cls, k = truncation_models(name)
            k = dict(k, **kw)
            k['lens_cosmo'] = self.lc
            self._t[key] = cls(**k)
        return self._t[key]

    # specifications -------------------------------------------------------------------------------------------------
    def spec(self, kind=None, z=None, mass=None, is_sub=None, rmax=None, rng=None, tag=None):
        rng = self.rng if rng is None else rng
        if kind is None:
            kind = str(rng.choice(SIMPLE))
        if is_sub is None:
            is_sub = kind in SUBTYPES or (kind in ANYTYPES and bool(rng.integers(0, 2)))
        if z is None:
            z = self.zl if (is_sub or kind == 'GC') else float(rng.choice(self.planes))
        if mass is None:
            mass = float(10 ** rng.uniform(6, 9.8))
        self.tag += 1
        r, phi = (0.5 * self.theta if rmax is None else rmax) * np.sqrt(rng.random()), rng.uniform(0, 2 * np.pi)
        s = dict(kind=kind, mass=mass, x=float(r * np.cos(phi)), y=float(r * np.sin(phi)), z=float(z), is_sub=bool(is_sub),
                 r3d=float(rng.uniform(5, 200)), tag=(float(rng.random()) if tag is None else tag),
                 zinf=float(z + rng.uniform(0.05, 4)), c=float(rng.uniform(3, 25)))
        s['model'] = str(rng.choice(['DIEMERJOYCE19', 'CONSTANT', 'PEAK_HEIGHT_POWERLAW']))
        if is_sub:
            s['trunc'] = str(rng.choice(['TRUNCATION_R50', 'TRUNCATION_ROCHE', 'TRUNCATION_GALACTICUS', 'MULTIPLE_RS',
                                         'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_MEAN_DENSITY']))
        else:
            s['trunc'] = str(rng.choice(['TRUNCATION_R50', 'TRUNCATION_RN', 'MULTIPLE_RS']))
        s['tkw'] = {'MULTIPLE_RS': dict(tau=float(round(rng.uniform(1, 20), 2))), 'TRUNCATION_GALACTICUS': dict(c_host=5.5),
                    'TRUNCATION_GALACTICUS_ZINFALL': dict(c_host=5.5), 'TRUNCATION_GALACTICUS_KEELEY24': dict(c_host=5.5)
                    }.get(s['trunc'], {})
        a = {}
        if kind.startswith('GNFW'):
            a = dict(gamma_inner=float(rng.uniform(0.3, 2.4)), gamma_outer=float(rng.uniform(3.2, 5.5)))
            if rng.integers(0, 3) == 0:
                a['x_match'] = 'c' if rng.integers(0, 2) else float(rng.uniform(1, 5))
        elif kind.startswith('SPL'):
            a = dict(log_slope_halo=float(rng.uniform(2.2, 3.6)), x_core_halo=float(rng.uniform(0.02, 0.4)))
            if rng.integers(0, 3) == 0:
                a['x_match'] = 'c' if rng.integers(0, 2) else float(rng.uniform(1, 5))
        elif kind == 'CNFW':
            a = dict(beta=float(rng.uniform(0.05, 0.9)))
        elif kind.startswith('TNFWC'):
            a = dict(mass_conservation=float(mass * rng.uniform(0.2, 1)), rt_kpc=float(rng.uniform(0.5, 8)))
            if kind == 'TNFWC':
                a['x_core_halo'] = float(rng.uniform(0.03, 0.3))
            else:
                a.update(sidm_timescale=float(rng.uniform(3, 60)), lambda_t=float(rng.uniform(0.5, 2)))
        elif kind.startswith('ULDM'):
            a = dict(log10_m_uldm=float(rng.uniform(-21.5, -20.5)), uldm_plaw=1. / 3, scale_nfw=bool(rng.integers(0, 2)))
            s['mass'] = float(10 ** rng.uniform(8.3, 9.8))
        elif kind == 'GAUSSIAN':
            a = dict(amp=float(rng.normal(0, 1e-3)), sigma=float(rng.uniform(0.01, 0.2)), center_x=s['x'], center_y=s['y'])
        elif kind == 'GC':
            a = dict(gamma=float(rng.uniform(5, 6.5)), gc_size_pc=float(rng.uniform(20, 80)), gc_concentration=float(rng.uniform(10, 25)))
            s['mass'] = float(10 ** rng.uniform(4.5, 6.5))
        elif kind.startswith('CORE_COLLAPSED'):
            a = dict(gamma_inner=float(rng.uniform(2.0, 2.8)), slope=float(rng.uniform(-2.3, -1.7)), scale=float(rng.uniform(1.05, 1.5)))
            s['trunc'], s['tkw'] = 'MULTIPLE_RS', dict(tau=float(rng.uniform(4, 20)))
        elif kind == 'FROM_PARAMS':
            a = dict(rv=float(rng.uniform(10, 30)), rs=float(rng.uniform(0.5, 2)), rhos=float(10 ** rng.uniform(6, 7.5)),
                     r_trunc_kpc=float(rng.uniform(0.5, 10)), z_infall=s['zinf'], index=int(rng.integers(0, 1000)))
        elif kind == 'EMULATOR':
            a = dict(fb=float(rng.uniform(0.02, 0.9)))
        elif kind == 'HYBRID':
            a = dict(w=float(rng.uniform(0, 1)), x_core_halo=float(rng.uniform(0.03, 0.3)), rt_kpc=float(rng.uniform(0.5, 8)),
                     mass_conservation=float(mass * rng.uniform(0.2, 1)))
            s['trunc'], s['tkw'] = 'MULTIPLE_RS', dict(tau=float(rng.uniform(4, 20)))
        elif kind in ('SIS', 'MASSIVE_GALAXY'):
            s['mass'] = float(10 ** rng.uniform(8.5, 10))
        s['args'] = a
        return s

    def _conc(self, s):
        return self.concentration('CONSTANT', c=s['c']) if s['model'] == 'CONSTANT' else self.concentration(s['model'])

    def make(self, s, args=None):
        """a fresh halo from its specification (args: the dictionary actually handed over, e.g. one shared by several halos)"""
        from pyHalo.Halos.HaloModels import (NFW, TNFW, generalized_nfw, powerlaw, PsuedoJaffe, blackhole, ULDM, gaussianhalo, NFW_core,
                                             NFW_core_trunc, core_collapsed_halo, sis, globular_cluster, TNFWFromParams, TNFWemulator)
        k = s['kind']
        cls = {'TNFW_FIELD': TNFW.TNFWFieldHalo, 'TNFW_SUB': TNFW.TNFWSubhalo, 'NFW_FIELD': NFW.NFWFieldHalo,
               'NFW_SUB': NFW.NFWSubhhalo, 'GNFW_FIELD': generalized_nfw.GeneralNFWFieldHalo,
               'GNFW_SUB': generalized_nfw.GeneralNFWSubhalo, 'SPL_FIELD': powerlaw.PowerLawFieldHalo, 'SPL_SUB': powerlaw.PowerLawSubhalo,
               'PJAFFE': PsuedoJaffe.PJaffeSubhalo, 'CNFW': NFW_core.CoreNFWHalo, 'TNFWC': NFW_core_trunc.TNFWCHaloParametric,
               'TNFWC_EVOLVING': NFW_core_trunc.TNFWCHaloEvolving, 'CORE_COLLAPSED': core_collapsed_halo.CoreCollapsedHalo,
               'CORE_COLLAPSED_BH': core_collapsed_halo.CoreCollapsedHaloBH, 'BH': blackhole.BlackHole,
               'GAUSSIAN': gaussianhalo.GaussianHalo, 'ULDM_FIELD': ULDM.ULDMFieldHalo, 'ULDM_SUB': ULDM.ULDMSubhalo}.get(k)
        a = dict(s['args']) if args is None else args
        conc, tr = self._conc(s), self.truncation(s['trunc'], **s['tkw'])

        def std(cls, a, is_sub=s['is_sub']):
            h = cls(s['mass'], s['x'], s['y'], s['r3d'], s['z'], is_sub, self.lc, a, tr, conc, s['tag'])
            if is_sub:
                h.set_infall_redshift(s['zinf'])
            return h

        if k.startswith('CORE_COLLAPSED'):
            n = std(TNFW.TNFWSubhalo if s['is_sub'] else TNFW.TNFWFieldHalo, {})
            _, rs, r200 = n.nfw_params
            rt = n.profile_args[1]
            rm = n.log_derivative_inverse(a['slope'], rs, rt)
            a = dict(gamma_inner=a['gamma_inner'], gamma_outer=6.0, rt_kpc=rt, m_target_r200=n.mass_3d(r200),
                     m_target_R=a['scale'] * n.mass_3d(rm), r_match_kpc=rm, Rs_inner_kpc=rm, sidm_timescale=20.0, lambda_t=1.0)
            conc = self.concentration('CONSTANT', c=float(n.c))      # the halo it was made from
            h = std(cls, a)
            if s['is_sub']:
                h.set_bound_mass(n.bound_mass)
            return h
        if k in ('SIS', 'MASSIVE_GALAXY'):
            n = std(TNFW.TNFWSubhalo if s['is_sub'] else TNFW.TNFWFieldHalo, {})
            return (sis.SIS if k == 'SIS' else sis.MassiveGalaxy)(n)
        if k == 'HYBRID':
            n = std(TNFW.TNFWSubhalo if s['is_sub'] else TNFW.TNFWFieldHalo, {})
            c = std(NFW_core_trunc.TNFWCHaloParametric, {q: a[q] for q in ('x_core_halo', 'rt_kpc', 'mass_conservation')})
            h = NFW_core_trunc.Hybrid(n, c, a['w'])
            if s['is_sub']:
                h.set_infall_redshift(s['zinf'])
            return h
        if k == 'GC':
            return globular_cluster.GlobularCluster(s['mass'], s['x'], s['y'], s['z'], self.lc, a, s['tag'])
        if k == 'FROM_PARAMS':
            kp = self.lc.cosmo.kpc_proper_per_asec(s['z'])
            return TNFWFromParams.TNFWFromParams(s['mass'], s['x'] * kp, s['y'] * kp, s['r3d'], s['z'], True, self.lc, a, s['tag'])
        if k == 'EMULATOR':
            kp = self.lc.cosmo.kpc_proper_per_asec(s['z'])
            h = TNFWemulator.TNFWSubhaloEmulator(s['mass'], s['x'] * kp, s['y'] * kp, a['fb'] * s['mass'], s['c'], s['z'], self.lc,
                                                 s['tag'])
            h.set_infall_redshift(s['zinf'])
            return h
        if k == 'BH' and s.get('free'):
            return blackhole.BlackHole(s['mass'], s['x'], s['y'], s['r3d'], s['z'], s['is_sub'], self.lc, a, tr, conc, s['tag'],
                                       fixed_position=False)
        if k in ('TNFWC', 'TNFWC_EVOLVING', 'CNFW') and s['is_sub']:
            h = std(cls, a)
            h.set_bound_mass(0.5 * s['mass'])
            return h
        return std(cls, a)

    def realization(self, specs, sheets=True, rendering_classes=None, center=None):
        from pyHalo.single_realization import Realization
        cx, cy = (None, None) if center is None else center
        return Realization.from_halos([self.make(s) for s in specs], self.lc, {}, sheets, rendering_classes, cx, cy, self.geo)

    def path(self, rng=None, amp=0.5, straight=False):
        """an interpolated light path: angular position as a function of comoving distance"""
        from scipy.interpolate import interp1d
        rng = self.rng if rng is None else rng
        ds = self.ap.comoving_distance(self.zs).value * 1.02
        d = np.linspace(0, ds, 80)
        dl = self.ap.comoving_distance(self.zl).value
        x0, y0 = rng.uniform(-amp, amp, 2)
        vx, vy = (0, 0) if straight else rng.uniform(-2 * amp, 2 * amp, 2)
        k = np.where(d > dl, (d - dl) / (ds - dl), 0.0)
        # light paths bend in the foreground too
        fx, fy = (0, 0) if straight else rng.uniform(-0.5 * amp, 0.5 * amp, 2)
        return interp1d(d, x0 + vx * k + fx * np.sin(2 * d / dl)), interp1d(d, y0 + vy * k + fy * np.sin(2 * d / dl))

    def comoving(self, z):
        return self.ap.comoving_distance(z).value


def exports(halo):
    """names and parameters a halo hands to the lens model"""
    return list(halo.lenstronomy_ID), [dict(d) for d in halo.lenstronomy_params[0]]


def snapshot(halo):
    return (type(halo).__name__, float(halo.mass), float(halo.x), float(halo.y), float(halo.z),
            None if halo.r3d is None else float(halo.r3d), bool(halo.is_subhalo), None if halo.unique_tag is None else float(halo.unique_tag), halo.mdef)


def was_shifted(r):
    """whether the realization counts as shifted to the background already"""
    flag = getattr(r, '_has_been_shifted', None)
    if flag is not None:
        return bool(flag)
    out = r.shift_background_to_source(lambda d: 1.0 + 0 * np.asarray(d), lambda d: 0 * np.asarray(d))
    return all(a.x == b.x for a, b in zip(r.halos, out.halos))


def component(obj, name, has):
    """an object held by another one: under its present name, or any that has the given attribute"""
    d = obj.__dict__
    return d[name] if name in d else next(v for v in d.values() if hasattr(v, has))
