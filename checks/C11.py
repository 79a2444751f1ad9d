import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from scipy import stats
from scipy.interpolate import RegularGridInterpolator
from vf import THOROUGH, rng_for, seed_global
from worlds import World
from C09 import Pit

RULE = 'concentration models against direct colossus evaluations, documented suppression formulas and each other'
MIN = 1.2
LUD = (np.array([1.0, 2.0, 2.7, 3.2, 4.0]), np.array([6.0, 7.0, 8.0]), np.array([0.0, 1.0, 2.0, 3.0, 4.0]))
LUD_A = np.array([0.554, 0.484, 0.432, 0.276, 0.116, 0.474, 0.46, 0.376, 0.206, 0.053, 0.486, 0.429, 0.319, 0.12, -0.048, 0.497, 0.457, 0.37, 0.288, 0.131,
                  0.472, 0.446, 0.35, 0.216, 0.057, 0.477, 0.393, 0.329, 0.134, -0.021, 0.49, 0.412, 0.367, 0.268, 0.121, 0.454, 0.406, 0.343, 0.24, 0.074,
                  0.455, 0.388, 0.287, 0.123, -0.017, 0.453, 0.428, 0.363, 0.271, 0.128, 0.442, 0.412, 0.337, 0.225, 0.072, 0.409, 0.392, 0.282, 0.146, 0.004,
                  0.432, 0.414, 0.348, 0.255, 0.103, 0.425, 0.419, 0.318, 0.166, 0.065, 0.412, 0.379, 0.283, 0.119, 0.01]).reshape(5, 3, 5)
LUD_B = np.array([0.805, 0.766, 0.85, 0.927, 0.938, 0.739, 0.782, 0.868, 0.952, 1.015, 0.782, 0.778, 0.892, 0.946, 1.045, 0.545, 0.513, 0.552, 0.617, 0.715,
                  0.533, 0.574, 0.606, 0.711, 0.721, 0.549, 0.56, 0.638, 0.702, 0.749, 0.499, 0.46, 0.495, 0.543, 0.646, 0.468, 0.485, 0.553, 0.57, 0.686,
                  0.498, 0.509, 0.56, 0.64, 0.684, 0.457, 0.464, 0.499, 0.492, 0.631, 0.445, 0.471, 0.499, 0.555, 0.657, 0.45, 0.504, 0.518, 0.641, 0.685,
                  0.42, 0.447, 0.477, 0.483, 0.584, 0.42, 0.476, 0.501, 0.565, 0.622, 0.424, 0.473, 0.514, 0.59, 0.665]).reshape(5, 3, 5)
IA, IB = RegularGridInterpolator(LUD, LUD_A), RegularGridInterpolator(LUD, LUD_B)


def colossus_of(w):
    from colossus.cosmology import cosmology as cc
    p = w.cosmo.colossus if hasattr(w.cosmo, 'colossus') else None
    return p if p is not None else cc.getCurrent()


def nu(m, z, h):
    from colossus.lss import peaks
    return peaks.peakHeight(m * h, z)


def direct(w, p, m, z):
    """median of a cold model, evaluated directly"""
    from colossus.halo.concentration import concentration
    h = w.H0 / 100.
    if p['name'] in ('DIEMERJOYCE19', 'LUDLOW2016'):
        return float(concentration(np.array([m * h]), '200c', z, model='diemer19' if p['name'] == 'DIEMERJOYCE19' else 'ludlow16')[0])
    if p['name'] == 'PEAK_HEIGHT_POWERLAW':
        q = dict(p['kw'])
    else:
        b = p['kw']
        i = [j for j, (lo, hi) in enumerate(b['log10_mass_bins']) if lo <= np.log10(m) < hi][0]
        q = dict(c0=b['normalization_list'][i], beta=b['beta_list'][i], zeta=b['zeta_list'][i], redshift_evolution=b['redshift_evolution'])
    if q.get('redshift_evolution', 'PEAK_HEIGHT') == 'RHO_CRIT':
        ev = w.ap.efunc(z) ** 2
    else:
        ev = nu(m, 0.0, h) / nu(m, z, h)
    return q['c0'] * (nu(m, z, h) / nu(q.get('m_pivot', 1e8), z, h)) ** -q['beta'] * ev ** q['zeta']


def suppression(p, m, z):
    k = p['kw']
    x = m / 10 ** k['log_mc']
    if p['name'] == 'LUDLOW_WDM':
        at = (np.clip(-k['dlogT_dlogk'], 1, 4), np.clip(k['log_mc'], 6, 8), np.clip(z, 0, 4))
        a, b = float(np.squeeze(IA(at))), float(np.squeeze(IB(at)))
        return 0.5 * (1 + np.tanh((np.log10(x) - a) / (2 * b)))
    if p['form'] == 'tanh':
        return 0.5 * (1 + np.tanh((np.log10(x) - p['a']) / (2 * p['b'])))
    s = (1 + p['c_scale'] * x ** -p['c_power_inner']) ** p['c_power']
    return s * ((1 + z) ** (0.026 * z - 0.04) if p['zev'] else 1.0)


TURN = [0]


def draw(w, rng, cold=None):
    """a model with its parameters: name, keywords for the registry, what is needed for the oracle"""
    from pyHalo.Halos import concentration as C
    colds = ['DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW', 'BINNED_HALO_MASS']
    TURN[0] += 0 if cold else 1
    name = str(rng.choice(colds)) if cold else (colds + ['WDM_HYPERBOLIC', 'WDM_POLYNOMIAL', 'BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022', 'LUDLOW_WDM',
                                                      'FROM_FORMATION_HISTORY'])[TURN[0] % 11]
    u = lambda a, b: float(rng.uniform(a, b))
    p = dict(name=name, kw={}, cold=name in colds)
    if name == 'PEAK_HEIGHT_POWERLAW':
        p['kw'] = dict(c0=u(3, 30), zeta=u(-0.5, 0.2), beta=u(0.2, 1.5))
        if rng.integers(0, 2):
            p['kw']['redshift_evolution'] = str(rng.choice(['PEAK_HEIGHT', 'RHO_CRIT']))
        if rng.integers(0, 2):
            p['kw']['m_pivot'] = 10 ** u(7, 9)
    elif name == 'BINNED_HALO_MASS':
        p['kw'] = dict(log10_mass_bins=[(3.0, 7.0), (7.0, 8.5), (8.5, 14.0)], normalization_list=[u(3, 30) for _ in range(3)],
                       beta_list=[u(0.2, 1.2) for _ in range(3)], zeta_list=[u(-0.5, 0.2) for _ in range(3)],
                       redshift_evolution=str(rng.choice(['PEAK_HEIGHT', 'RHO_CRIT'])))
    elif name == 'LUDLOW_WDM':
        p['kw'] = dict(log_mc=u(5, 9), dlogT_dlogk=-u(0.5, 5))
        p['under'] = dict(name='LUDLOW2016', kw={}, cold=True)
    elif name in ('BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022'):
        p['kw'] = dict(log_mc=u(5, 9))
        p['under'] = dict(name='LUDLOW2016' if name.endswith('LUDLOW') else 'DIEMERJOYCE19', kw={}, cold=True)
        p.update(form='poly', **(dict(c_scale=21.42, c_power=-0.42, c_power_inner=1.62, zev=True) if name == 'LAROCHE2022' else
                                 dict(c_scale=60.0, c_power=-0.17, c_power_inner=1.0, zev=False)))
    elif not p['cold']:
        und = draw(w, rng, cold=True)
        p['under'] = und
        cls = {'DIEMERJOYCE19': C.ConcentrationDiemerJoyce, 'LUDLOW2016': C.ConcentrationLudlow, 'PEAK_HEIGHT_POWERLAW': C.ConcentrationPeakHeight,
               'BINNED_HALO_MASS': C.BinnedHaloMass}[und['name']]
        p['kw'] = dict(log_mc=u(5, 9), concentration_cdm_class=cls)
        if und['kw']:
            p['kw']['kwargs_cdm'] = und['kw']
        if name == 'WDM_POLYNOMIAL':
            q = {}
            if rng.integers(0, 2):
                q = dict(c_scale=u(1, 80), c_power=-u(0.05, 0.5), c_power_inner=u(0.5, 2), mc_suppression_redshift_evolution=bool(rng.integers(0, 2)))
            p['kw'].update(q)
            p.update(form='poly', c_scale=q.get('c_scale', 60.0), c_power=q.get('c_power', -0.17), c_power_inner=q.get('c_power_inner', 1.0),
                     zev=q.get('mc_suppression_redshift_evolution', True))
        elif name == 'WDM_HYPERBOLIC':
            p.update(form='tanh', a=u(-0.3, 0.8), b=u(0.3, 1))
            p['kw'].update(a=p['a'], b=p['b'])
        else:
            d = u(0.75, 4)
            p['kw']['dlogT_dlogk'] = d
            p.update(form='tanh', a=0.75 * (0.7 / d) ** 0.4, b=0.94 * abs(np.log(1.76 + 0.6) / np.log(d + 0.6)) ** 0.7)
    return p


def make(w, p, scatter=False, **more):
    import copy
    from pyHalo.concentration_models import preset_concentration_models
    k = dict(p['kw'], cosmo=w.ap, scatter=scatter, **more)
    cls, k2 = preset_concentration_models(p['name'], k)
    return cls(**k2)


def want(w, p, m, z):
    c = max(direct(w, p if p['cold'] else p['under'], m, z), MIN)
    return c if p['cold'] else max(c * suppression(p, m, z), MIN)


def describe(p):
    return dict(name=p['name'], under=p.get('under', {}).get('name'), kw={k: v for k, v in p['kw'].items() if k != 'concentration_cdm_class'})


def scalar(v):
    return float(np.squeeze(v))


def points(w, rng, n, wide):
    lo, hi = (3.2, 13.5) if wide else (5.2, 11.3)
    return 10 ** rng.uniform(lo, hi, n), rng.uniform(0.0, 10.0, n)


def values(ck, rng, k):
    """medians against direct evaluation; alone, in arrays, repeated, after other queries"""
    w = World(rng)
    for j in range(4):
        p = draw(w, rng)
        wide = rng.integers(0, 3) == 0
        c = make(w, p)
        d = describe(p)
        mm, zz = points(w, rng, 12, wide)
        tab = (p if p['cold'] else p['under'])['name'] in ('DIEMERJOYCE19', 'LUDLOW2016')
        tol = 2e-3 if tab else 1e-8
        first = []
        for m, z in zip(mm, zz):
            v = scalar(c.nfw_concentration(float(m), float(z)))
            first.append(v)
            ck.expect(np.isfinite(v) and v > 0, 'positive_and_finite', at=(m, z), got=v, **d)
            ck.close(v, want(w, p, m, z), 'median ' + p['name'], rtol=tol, at=(m, z), **d)
            if not p['cold']:
                cold = direct(w, p['under'], m, z)
                # Bose et al. (2016) give the suppression a redshift dependence that exceeds one beyond z = 1.54
                zev = max(1.0, (1 + z) ** (0.026 * z - 0.04)) if p.get('zev') else 1.0
                ck.expect(v <= max(cold, MIN) * zev * (1 + tol), 'warm_at_most_cold ' + p['name'], at=(m, z), warm=v, cold=cold, **d)
                ck.expect(v >= MIN * (1 - 1e-12), 'minimum', at=(m, z), **d)
        # the same in arrays of any kind and order, again, and from another instance made in between
        order = rng.permutation(12)
        other = make(w, draw(w, rng, cold=True), scatter=True)
        other.nfw_concentration(1e9, 0.3)
        z0 = float(zz[0])
        alone = np.array([scalar(c.nfw_concentration(float(m), z0)) for m in mm])
        for how, a in (('array', np.array(mm)), ('list', list(mm)), ('shuffled', np.array(mm)[order]), ('single', np.array(mm[:1]))):
            try:
                v = np.asarray(c.nfw_concentration(a, z0), float)
            except TypeError:
                if how == 'list' and not p['cold']:
                    continue        # arithmetic with lists
                raise
            ref = alone[order] if how == 'shuffled' else alone[:len(a)]
            ck.expect(v.shape == (len(a),), 'one_value_for_each_mass', how=how, shape=v.shape, **d)
            ck.close(v.ravel(), ref, 'alone_and_in_an_array', rtol=2e-3 if tab else 1e-9, how=how, z=z0, **d)
        im = np.array([10 ** 6, 10 ** 9])
        ck.close([scalar(c.nfw_concentration(10 ** 6, z0)), scalar(c.nfw_concentration(np.float64(1e9), z0))],
                 [scalar(c.nfw_concentration(1e6, z0)), scalar(c.nfw_concentration(1e9, z0))], 'integer_masses', rtol=1e-9, **d)
        again = [scalar(c.nfw_concentration(float(m), float(z))) for m, z in zip(mm, zz)]
        ck.close(again, first, 'deterministic_without_scatter', rtol=2e-3 if tab else 1e-12, **d)
        c2 = make(w, p)
        for i in order:
            ck.close(scalar(c2.nfw_concentration(float(mm[i]), float(zz[i]))), first[i], 'another_instance_agrees', rtol=2e-3 if tab else 1e-9, **d)
        # neighbouring masses and redshifts have neighbouring values of their own
        for i in range(6):
            m, z, v = float(mm[i]), float(zz[i]), first[i]
            far = [[want(w, p, m * a, z) for a in (0.8, 1.0, 1.25)], [want(w, p, m, b) for b in (max(z - 0.03, 0.0), z, z + 0.03)]]
            for what, (lo, mid, hi), q in (('mass', far[0], (m * (1 + 1e-5), z)), ('redshift', far[1], (m, z + 1e-5))):
                if min(lo, mid, hi) < 1.02 * MIN or (hi - mid) * (mid - lo) <= 0 or abs(hi / lo - 1) < 5e-3:
                    continue
                g = scalar(c.nfw_concentration(*q))
                if p['name'] == 'BINNED_HALO_MASS' and what == 'mass':
                    continue
                ck.expect(1e-9 < abs(g / v - 1) < 1e-3, 'neighbours_have_their_own_value', what=what, m=m, z=z, got=g, first=v, far=(lo, mid, hi), **d)
        # queries far away
        # outside of the range a table covers at first: in redshift, then in mass
        if (p if p['cold'] else p['under'])['name'] != 'BINNED_HALO_MASS':
            for m, z in ((10 ** rng.uniform(6, 10), rng.uniform(11, 17)), (10 ** rng.uniform(12.2, 13.5), rng.uniform(0, 3)),
                         (10 ** rng.uniform(3.2, 4.6), rng.uniform(0, 9))):
                for q in (float(m), np.array([1e8, m])):
                    ck.close(np.ravel(c.nfw_concentration(q, float(z)))[-1], want(w, p, m, z), 'median_far_away', rtol=4e-3, at=(m, z), **d)
        now = [scalar(c.nfw_concentration(float(m), float(z))) for m, z in zip(mm, zz)]
        ck.expect(now == again or tab, 'repeats_are_identical', **d)
        c.nfw_concentration(float(10 ** rng.uniform(2.5, 3.5) if p['name'] != 'BINNED_HALO_MASS' and (p.get('under') or p)['name'] != 'BINNED_HALO_MASS'
                                  else 2e3), float(rng.uniform(12, 20)))
        ck.close([scalar(c.nfw_concentration(float(m), float(z))) for m, z in zip(mm, zz)], first, 'earlier_queries_do_not_matter', rtol=2e-3, **d)
        if tab and p['cold']:
            e = make(w, p, use_interpolation_table=False)
            ck.close([scalar(e.nfw_concentration(float(m), float(z))) for m, z in zip(mm[:4], zz[:4])],
                     [direct(w, p, m, z) for m, z in zip(mm[:4], zz[:4])], 'without_the_table', rtol=1e-9, **d)
        if not p['cold'] and p['name'] != 'LUDLOW_WDM':
            z = float(rng.uniform(0, 3))
            m = 10 ** (p['kw']['log_mc'] + (7 * max(1.0, p['b']) if p['form'] == 'tanh' else 10))
            if m < 1e14 or p['under']['name'] not in ('BINNED_HALO_MASS',):
                s = float(c.suppression(m, z))
                lim = (1 + z) ** (0.026 * z - 0.04) if p.get('zev') else 1.0
                ck.close(s, lim, 'cold_limit_far_above_the_cutoff', rtol=2e-2, z=z, **d)
                ms = np.geomspace(10 ** (p['kw']['log_mc'] - 3), 10 ** (p['kw']['log_mc'] + 4), 40)
                ck.expect(np.all(np.diff([float(c.suppression(q, z)) for q in ms]) >= -1e-12), 'suppression_grows_with_mass', **d)
                ck.close([float(c.suppression(q, z)) for q in ms], [suppression(p, q, z) for q in ms], 'suppression', rtol=1e-9, **d)
        ck.case(dict(d, k=k, j=j, wide=bool(wide)))


def scatter(ck, rng, k, pit):
    w = World(rng)
    for j in range(4):
        p = draw(w, rng)
        d = describe(p)
        sig = round(float(rng.uniform(0.05, 0.4)), 3)
        more = {} if rng.integers(0, 3) == 0 else dict(scatter_dex=sig)
        if not more:
            sig = 0.2
        calm, c = make(w, p, scatter=False, scatter_dex=round(float(rng.uniform(0.05, 0.4)), 3)), make(w, p, scatter=True, **more)
        z = float(rng.uniform(0, 4))
        mm = 10 ** rng.uniform(5.5, 11, 150)
        med = np.array([scalar(calm.nfw_concentration(float(m), z)) for m in mm])
        und = calm if p['cold'] else make(w, p['under'])
        under = np.array([scalar(und.nfw_concentration(float(m), z)) for m in mm])
        got = np.array([scalar(c.nfw_concentration(float(m), z)) for m in mm])
        arr = np.asarray(c.nfw_concentration(mm, z), float).ravel()
        ck.expect(np.all(got >= MIN * (1 - 1e-12)) and np.all(arr >= MIN * (1 - 1e-12)), 'minimum', **d)
        for kind, v in (('alone', got), ('array', arr)):
            ok = (med > MIN * np.exp(5.5 * sig)) & (under > MIN * np.exp(5.5 * sig))
            ck.expect(len(np.unique(v)) >= np.sum(v > MIN + 1e-9), 'every_halo_has_its_own_scatter', kind=kind, **d)
            for u, m in zip(stats.norm.cdf(np.log(v[ok] / med[ok]) / sig), mm[ok]):
                pit.add('scatter of ' + p['name'], u)
                pit.add('scatter %s %s' % ('cold' if p['cold'] else 'warm', kind), u, sig=sig, mass=m, z=z)
        if p['cold']:
            ck.close([scalar(c.nfw_concentration(float(m), z, force_no_scatter=True)) for m in mm[:10]], med[:10], 'median_without_scatter', rtol=1e-9, **d)
            ck.close(np.ravel(c.nfw_concentration(mm[:10], z, force_no_scatter=True)), med[:10], 'median_without_scatter', rtol=1e-9, **d)
        # without scatter, whatever was made before
        ck.close([scalar(calm.nfw_concentration(float(m), z)) for m in mm[:5]], med[:5], 'deterministic_without_scatter', rtol=1e-12, **d)
        late = make(w, p, scatter=False)
        ck.close([scalar(late.nfw_concentration(float(m), z)) for m in mm[:5]], med[:5], 'models_do_not_share_settings', rtol=2e-3, **d)
        ck.case(dict(d, k=k, j=j, sig=sig))


def registry(ck, rng, k):
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.Halos import concentration as C
    w = World(rng)
    names = {'DIEMERJOYCE19': C.ConcentrationDiemerJoyce, 'LUDLOW2016': C.ConcentrationLudlow, 'PEAK_HEIGHT_POWERLAW': C.ConcentrationPeakHeight,
             'BINNED_HALO_MASS': C.BinnedHaloMass, 'WDM_HYPERBOLIC': C.ConcentrationWDMHyperbolic, 'WDM_POLYNOMIAL': C.ConcentrationWDMPolynomial,
             'BOSE2016': C.ConcentrationWDMPolynomial, 'BOSE2016_LUDLOW': C.ConcentrationWDMPolynomial, 'LAROCHE2022': C.ConcentrationWDMPolynomial,
             'LUDLOW_WDM': C.ConcentrationLudlowWDM, 'FROM_FORMATION_HISTORY': C.ConcentrationWDMHyperbolic, 'CONSTANT': C.ConcentrationConstant}
    for n, cls in names.items():
        given = {'dlogT_dlogk': 2.0, 'nested': {'a': [1]}}
        got, kw = preset_concentration_models(n, given)
        ck.expect(got is cls, 'registered_class', name=n, got=got)
        ck.expect(given == {'dlogT_dlogk': 2.0, 'nested': {'a': [1]}} and kw is not given, 'arguments_not_modified', name=n)
        ck.expect(kw.get('nested') == {'a': [1]}, 'arguments_are_passed_on', name=n)
    for bad in ('nothing', '', 'DIEMERJOYCE'):
        try:
            preset_concentration_models(bad, {})
            ck.fail('unknown_names_are_refused', name=bad)
        except Exception:
            ck.count('unknown_names_are_refused')

    class Mine(object):
        def __init__(self, cosmo, q):
            self.q = q

        def nfw_concentration(self, m, z):
            return self.q
    cls, kw = preset_concentration_models('CUSTOM', {'custom_class': Mine, 'q': 7.5, 'cosmo': None})
    ck.expect(cls is Mine and cls(**kw).nfw_concentration(1e8, 0.2) == 7.5, 'custom_models')
    try:
        preset_concentration_models('CUSTOM', {'custom_class': dict})
        ck.fail('custom_models_without_concentration_are_refused')
    except Exception:
        ck.count('custom_models_without_concentration_are_refused')
    for bad in (dict(c_power=0.3), dict(c_scale=-1.0)):
        try:
            C.ConcentrationWDMPolynomial(w.ap, C.ConcentrationDiemerJoyce, 7.0, **bad)
            ck.fail('unphysical_parameters_are_refused', **bad)
        except Exception:
            ck.count('unphysical_parameters_are_refused')
    try:
        C.ConcentrationLudlowWDM(w.ap, 7.0, 1.5)
        ck.fail('unphysical_parameters_are_refused', slope=1.5)
    except Exception:
        ck.count('unphysical_parameters_are_refused')
    b = make(w, dict(name='BINNED_HALO_MASS', kw=dict(log10_mass_bins=[(6., 7.), (7., 9.)], normalization_list=[9., 12.], beta_list=[.8, .8],
                                                     zeta_list=[0., 0.])))
    for m in (9e5, 1.1e9):
        try:
            b.nfw_concentration(m, 0.4)
            ck.fail('masses_outside_of_the_bins_are_refused', m=m)
        except ValueError:
            ck.count('masses_outside_of_the_bins_are_refused')
    ck.expect(scalar(C.ConcentrationConstant(w.ap, 6.5).nfw_concentration(1e8, 0.3)) == 6.5, 'constant')
    # models made with shared keyword dictionaries
    kw = {'scatter': True}
    first = C.ConcentrationWDMPolynomial(w.ap, C.ConcentrationDiemerJoyce, 7.0, kwargs_cdm=kw, scatter_dex=0.1)
    ck.expect(kw == {'scatter': True}, 'arguments_not_modified', kw=kw)
    for cls, more in ((C.ConcentrationWDMPolynomial, {}), (C.ConcentrationWDMHyperbolic, dict(a=0.3, b=0.6))):
        cls(w.ap, C.ConcentrationDiemerJoyce, 7.0, scatter=True, **more)
        m = cls(w.ap, C.ConcentrationDiemerJoyce, 7.0, scatter=False, **more)
        v = [float(m.nfw_concentration(1e8, 0.5)) for _ in range(4)]
        ck.expect(np.ptp(v) <= 1e-9 * v[0], 'models_do_not_share_settings', cls=cls.__name__, got=v)
    ck.case(dict(registry=True, k=k))


def universes(ck, rng, k):
    """two cosmologies in one process"""
    from pyHalo.Halos import concentration as C
    w1 = World(rng)
    p = draw(w1, rng, cold=True)
    before = make(w1, p)
    pts = [(1e7, 0.5), (1e9, 1.5)]
    v = [scalar(before.nfw_concentration(*q)) for q in pts]
    after = make(w1, p)
    w2 = World(rng)
    from colossus.cosmology import cosmology as cc
    got = [scalar(after.nfw_concentration(*q)) for q in pts]
    # an instance that was evaluated already, against one evaluated after another cosmology appeared
    ck.close(got, v, 'concentrations_follow_the_cosmology_created_last', rtol=2e-3, first=w1.label, second=w2.label, **describe(p))
    ck.case(dict(universes=True, k=k, name=p['name']))


def body(ck):
    pit = Pit()
    for k in range(200 if THOROUGH else 22):
        for part, reps, args in ((values, 1, ()), (scatter, 1, (pit,)), (registry, 1, ()), (universes, 1, ())):
            if part in (registry, universes) and k % 5:
                continue
            seed_global('C11', part.__name__, k)
            with ck.scenario(part.__name__, k=k):
                part(ck, rng_for('C11', part.__name__, k), k, *args)
        if ck.out_of_time(0.9) and k > 4:
            break
    pit.judge(ck)


if __name__ == '__main__':
    vf.main('C11', RULE, body)
