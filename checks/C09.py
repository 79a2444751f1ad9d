import contextlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
from scipy import stats
from scipy.interpolate import RegularGridInterpolator
from scipy.special import ndtr
from vf import THOROUGH, rng_for, seed_global
from worlds import World, component
import refs

RULE = ('subhalos drawn over masses, redshifts, hosts and infall/truncation models; a case is one subhalo (or one call of a model) whose infall '
        'redshift, bound mass and truncation radius were compared with the equations of the model')
TAB = np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'mass_loss_tables.npz'))
# mean and scatter of the accretion redshift relative to the lens: a / (1 + b (-log10 m/M)^c)
INFALL = {'HYBRID_INFALL': ((3.35549949, 3.20546995, -2.91075587), (1.97880156, 4.17390702, -2.14428416)),
          'DIRECT_INFALL': ((3.3064042, 4.528511, -3.84346439), (1.94929171, 4.91504583, -2.4187402)),
          'DIRECT_INFALL_CLUSTER': ((2.05705664, 9.43229827, -4.69408104), (1.60922533, 9.45120467, -2.5087969)),
          'MW30': ((3.2, -3, -3), (1.8, 2.0, -2.6)), 'MW50': ((2.7, -2.0, -3.0), (1.8, 2.0, -2.6)),
          'MW200': ((0.5, 2.04, -11.3861), (2.07127, 2.22591, -2.619518))}
COUNTS = np.array([50, 93, 125, 180, 175, 144, 120, 117, 97, 82, 52, 51, 35, 20, 9, 4, 4, 0, 1, 1])
ZG = 0.03836189 + 0.83540051 * np.arange(20)


class Pit(object):
    """probability integral transforms of random draws, with the covariates they must not depend on"""

    def __init__(self):
        self.d = {}

    def add(self, name, u, **cov):
        self.d.setdefault(name, []).append((float(u), cov))

    def judge(self, ck):
        out = {}
        for name, rows in self.d.items():
            u = np.array([r[0] for r in rows])
            out[name] = len(u)
            if len(u) < 60:
                continue
            p = stats.kstest(u, 'uniform').pvalue
            ck.expect(p > 1e-7, 'distribution:' + name, p=p, n=len(u), mean=u.mean())
            for edge in (0.01, 0.04, 0.1):
                for side, cnt in (('low', (u < edge).sum()), ('high', (u > 1 - edge).sum())):
                    if len(u) * edge > 20:
                        p = min(stats.binom.cdf(cnt, len(u), edge), stats.binom.sf(cnt - 1, len(u), edge))
                        ck.expect(p > 1e-8, 'tail:' + name, p=p, edge=edge, side=side, count=int(cnt), n=len(u))
            for q in rows[0][1]:
                v = np.array([r[1][q] for r in rows])
                med, q1, q9 = np.median(v), np.quantile(v, 0.15), np.quantile(v, 0.85)
                for side, sel in (('low', v <= med), ('high', v > med), ('lowest', v <= q1), ('highest', v >= q9)):
                    if sel.sum() > 40:
                        p = stats.kstest(u[sel], 'uniform').pvalue
                        ck.expect(p > 1e-7, 'distribution:%s by %s' % (name, q), p=p, side=side, n=int(sel.sum()), mean=u[sel].mean())
        ck.note('draws_per_distribution', out)


def infall_pit(model, zl, log_m_host, m, z):
    if model == 'GALACTICUS_2024':
        cdf = np.cumsum(COUNTS) / COUNTS.sum()
        return (np.interp(z - zl, ZG, cdf) - cdf[0]) / (1 - cdf[0])
    mean, std = INFALL[model]
    x = -(np.clip(np.log10(m) - log_m_host, -5.0, -0.5))
    f = lambda p: p[0] / (1 + p[1] * x ** p[2])
    mu, sig = f(mean), f(std)
    if model in ('MW30', 'MW50') and (mu < -4 * sig or mu > 15 + 4 * sig):
        return float(stats.truncnorm.cdf((z - zl - mu) / sig, -mu / sig, (15 - mu) / sig))     # far in the tail
    lo, hi = ndtr(-mu / sig), ndtr((15 - mu) / sig)
    return (ndtr((z - zl - mu) / sig) - lo) / (hi - lo)


def infall(ck, rng, k, pit):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Halos import accretion as acc
    zl = round(float(rng.uniform(0.2, 1.2)), 3)
    zs = zl + 1.0
    cosmo = Cosmology()
    mw = {'MW30': acc.InfallDistributionDirectMilkyWay30kpc, 'MW50': acc.InfallDistributionDirectMilkyWay50kpc,
          'MW200': acc.InfallDistributionDirectMilkyWay200kpc}
    for name in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER', 'GALACTICUS_2024', 'INFALL_ZLENS', 'MW30', 'MW50', 'MW200']:
        lm = float(rng.uniform(14.0, 15.0)) if name == 'DIRECT_INFALL_CLUSTER' else float(rng.uniform(11.8, 13.9))
        kw = {} if name in ('GALACTICUS_2024', 'INFALL_ZLENS') else {'log_m_host': lm}
        if kw and name in ('HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER') and rng.integers(0, 2):
            kw = {'m_host': 10 ** lm}
        lc = LensCosmo(zl, zs, cosmo, mw.get(name, name), kw)
        for _ in range(700):
            m = float(10 ** rng.uniform(5.5, lm + 0.5))
            if name in mw and rng.integers(0, 3) == 0:
                m = float(10 ** (lm + rng.uniform(-2.2, -0.3)))
            z = lc.z_accreted_from_zlens(m)
            ck.expect(zl - 1e-12 <= z <= zl + 17.5, 'infall_redshift_in_range', model=name, z=z, zl=zl, m=m)
            if name == 'INFALL_ZLENS':
                ck.expect(z == zl, 'infall_at_the_lens', z=z, zl=zl)
            else:
                ck.expect(z <= zl + 15.001 + (1.0 if name == 'GALACTICUS_2024' else 0), 'infall_redshift_in_range', model=name, z=z, zl=zl)
                pit.add('infall ' + name, infall_pit(name, zl, lm, m, z), mass=np.log10(m), host=lm, zl=zl)
        # the same random number must be the same quantile of the distribution of the model
        for _ in range(40 if name != 'INFALL_ZLENS' else 0):
            m, q = float(10 ** rng.uniform(lm - 5.5, lm + 0.2)), float(rng.uniform(0.01, 0.99))
            with held_uniform(q) as n:
                z = lc.z_accreted_from_zlens(m)
            if n[0] != 1:
                ck.count('infall_drawn_in_another_way')
                break
            got = infall_pit(name, zl, lm, m, z)
            ck.expect(min(abs(got - q), abs(1 - got - q)) < 2e-3, 'infall_quantile', model=name, mass=m, host=lm, quantile=q, got=got, z=z)
        ck.case(dict(infall=name, zl=zl, log_m_host=lm, k=k))
    for bad in ('NOT_A_MODEL',):
        try:
            LensCosmo(zl, zs, cosmo, bad, {'log_m_host': 13.0})
            ck.fail('unknown_infall_model_is_refused', model=bad)
        except Exception:
            ck.count('unknown_infall_model_is_refused')


def interp(tab, axes):
    return RegularGridInterpolator(axes, tab)


L = np.linspace
AX = {'t': (L(0, 8.1, 15), L(np.log10(2), np.log10(384), 15), L(4, 9, 15)), 'z': (L(0, 8.1, 15), L(np.log10(2), np.log10(384), 15), L(4, 9, 15)),
      'm': (L(0, 12.9, 15), L(np.log10(2), np.log10(128), 15), L(6, 12, 15))}
AX['m30'] = AX['m50'] = AX['m200'] = AX['m']
SU = {q: (interp(TAB[q + '_a'], AX[q]), interp(TAB[q + '_b'], AX[q])) for q in ('t', 'z', 'm30', 'm50', 'm200')}
K24 = (L(0.0, 7.658449372663094, 20), L(2.0, 8.0, 20), L(0.3010299956639812, 2.3010299956639813, 20))
KM, KS = interp(TAB['k_mean'], K24), interp(TAB['k_sig'], K24)


@contextlib.contextmanager
def held_normal(q):
    """numpy.random.normal answers with a fixed quantile; yields the number of times it was asked"""
    n = [0]

    def fixed(loc=0.0, scale=1.0, size=None):
        n[0] += 1
        v = np.asarray(loc) + np.asarray(scale) * q
        return np.broadcast_to(v, size).copy() if size is not None else (float(v) if v.ndim == 0 else v)
    keep = np.random.normal
    np.random.normal = fixed
    try:
        yield n
    finally:
        np.random.normal = keep


@contextlib.contextmanager
def held_uniform(q):
    """numpy.random.uniform answers with a fixed fraction of its range; yields the number of times it was asked"""
    n = [0]

    def fixed(low=0.0, high=1.0, size=None):
        n[0] += 1
        v = np.asarray(low) + (np.asarray(high) - np.asarray(low)) * q
        return np.broadcast_to(v, size).copy() if size is not None else (float(v) if v.ndim == 0 else v)
    keep = np.random.uniform
    np.random.uniform = fixed
    try:
        yield n
    finally:
        np.random.uniform = keep


def loss_pit(table, t, log10c, chost, y, rng):
    """y = log10 of the bound mass fraction; values that would be positive are collected at zero"""
    ax = AX[table]
    p = [np.clip(v, a[0], a[-1]) for v, a in zip((t, log10c, chost), ax)]
    a, b = float(SU[table][0](p)[0]), float(SU[table][1](p)[0])
    if y >= -1e-12:
        return rng.uniform(ndtr(a), 1)
    return ndtr(a + b * np.arcsinh(y))


def k24_pit(t, log10c, chost, y, rng):
    p = [np.clip(v, a[0], a[-1]) for v, a in zip((t, chost, log10c), K24)]
    mu, s = float(KM(p)[0]), max(float(KS(p)[0]), 0.001)
    if y >= -1e-12:
        return rng.uniform(ndtr(-mu / s), 1)
    return ndtr((y - mu) / s)


def m_tot(tau):
    """mass of a unit TNFW profile out to infinity / (4 pi rhos rs^3)"""
    return tau ** 2 / (tau ** 2 + 1) ** 2 * ((tau ** 2 - 1) * np.log(tau) + np.pi * tau - (tau ** 2 + 1))


def m_in(x, tau):
    return tau ** 2 / (tau ** 2 + 1) ** 2 * (2 * tau * np.arctan(x / tau) + (tau ** 2 - 1) * np.log((1 + x) * tau / np.sqrt(x ** 2 + tau ** 2))
                                             - (tau ** 2 + 1) * x / (1 + x))


def gn(x):
    return np.log1p(x) - x / (1 + x)


def f_norm(mb_over_m0):
    """normalization of tidally stripped NFW profiles (Du et al. 2024), as a function of bound mass in units of 4 pi rhos rs^3"""
    x = mb_over_m0 / gn(20.587820037799197) / 1.1605002
    d, e = 0.75826635, 0.23376409
    f = (1 + d) * x ** e / (1 + d * x ** (2 * e))
    return min(1.0, f) if x <= 1 else 1.0


def built_from(ck, h, mb, rt, norm, inputs):
    """the profile (truncation radius, normalization) contains the bound mass"""
    rhos, rs, r200 = h.nfw_params
    m0 = h.mass / gn(h.c)
    tau = rt / rs
    ck.expect(rt > 0 and np.isfinite(rt), 'truncation_radius_is_positive', rt=rt, **inputs)
    ck.close(norm, f_norm(mb / m0), 'normalization_of_a_stripped_profile', rtol=1e-4, **inputs)
    if 1e-5 < tau < 1e3:
        ck.close(norm * m0 * m_tot(tau), mb, 'profile_contains_the_bound_mass', rtol=3e-3, **inputs)


def one_answer(ck, w, tr, s, name, seed, inputs):
    """every way of asking a model for the truncation of one halo gives the same answer"""
    def fresh():
        h = w.make(s)
        h.set_infall_redshift(inputs['zi'])
        return h

    def held(f):
        np.random.seed(seed)
        return f()
    h = fresh()
    ck.expect(h.z_infall == inputs['zi'], 'infall_redshift_that_was_set', **inputs)
    mb = float(held(lambda: tr.calculate_mbound(h)))
    args = {'TRUNCATION_GALACTICUS_ZINFALL': (h.z_infall - w.zl,), 'TRUNCATION_GALACTICUS_CDM_APPROX': (),
            'TRUNCATION_GALACTICUS_KEELEY24': (h.time_since_infall, inputs['c_host'])}.get(name, (h.time_since_infall,))
    h1, h2, h3 = fresh(), fresh(), fresh()
    r1 = held(lambda: tr.truncation_radius_halo(h1))
    r2 = held(lambda: tr.truncation_radius(h.mass, h.c, *args, h.z_eval))
    r3 = tr.truncation_radius_from_bound_mass(h2, mb)
    r4 = held(lambda: h3.profile_args[1])
    ck.close([r1, r2, r3], [r4] * 3, 'truncation_radius_does_not_depend_on_how_it_is_asked', rtol=1e-9, bound=mb, **inputs)
    ck.close([h1.rescale_norm, h2.rescale_norm], [h3.rescale_norm] * 2, 'normalization_does_not_depend_on_how_it_is_asked', rtol=1e-9, bound=mb, **inputs)
    if name == 'TRUNCATION_GALACTICUS_KEELEY24':
        if -5.9 < np.log10(mb / h.mass) < -0.01:
            ck.close(m_in(h.c, r1 / h.nfw_params[1]) * h.mass / gn(h.c), mb, 'profile_contains_the_bound_mass', rtol=0.02 if mb < 0.7 * h.mass else 0.15, **inputs)
    else:
        built_from(ck, h2, mb, r3, h2.rescale_norm, inputs)


def galacticus(ck, rng, k, pit):
    """models that prescribe a bound mass"""
    w = World(rng, infall=str(rng.choice(['HYBRID_INFALL', 'DIRECT_INFALL'])))
    from pyHalo.Halos.tidal_truncation import TruncationGalacticusMilkyWay
    for name in ['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_GALACTICUS_CDM_APPROX',
                 'BOUND_MASS_PDF', 'MILKY_WAY']:
        chs = rng.uniform(3.5, 7.9, 2) if name != 'MILKY_WAY' else rng.uniform(5, 13, 2)    # building a model is slow
        mus, sgs = -rng.uniform(0.3, 2, 2), rng.uniform(0.1, 0.8, 2)
        for j in range(16):
            ch = float(chs[j % 2])
            s = w.spec('TNFW_SUB', rng=rng)
            s['model'] = str(rng.choice(['DIEMERJOYCE19', 'CONSTANT', 'CONSTANT']))
            s['c'] = float(10 ** rng.uniform(0.2 if name != 'TRUNCATION_GALACTICUS_KEELEY24' else 0.35, 2.0))
            s['zinf'] = float(w.zl + rng.uniform(0.02, 6))
            mu, sg = float(mus[j % 2]), float(sgs[j % 2])
            if name == 'MILKY_WAY':
                s['trunc'], s['tkw'] = TruncationGalacticusMilkyWay, dict(c_host=ch)
            elif name == 'TRUNCATION_GALACTICUS_CDM_APPROX':
                s['trunc'], s['tkw'] = name, {}
            elif name == 'BOUND_MASS_PDF':
                s['trunc'], s['tkw'] = name, dict(log10_fbound_mean=mu, log10_fbound_standard_dev=sg)
            else:
                s['trunc'], s['tkw'] = name, dict(c_host=ch)
            given = bool(rng.integers(0, 3) == 0)
            h = w.make(s)
            if given:
                h.__dict__.pop('_z_infall', None)     # drawn from the infall model
            inputs = dict(model=name, mass=s['mass'], c=float(h.c), c_host=ch, zinf=s['zinf'], zl=w.zl)
            if given:
                ck.expect(h.z_infall >= h.z, 'infall_redshift_not_below_the_redshift', z_infall=h.z_infall, **inputs)
                pit.add('infall of halos', infall_pit(component(w.lc, '_z_infall_model', 'name').name.upper() + '_INFALL', w.zl, w.log_m_host, h.mass, h.z_infall),
                        mass=np.log10(h.mass))
            zi = h.z_infall
            t = w.ap.age(h.z).value - w.ap.age(zi).value
            ck.close(h.time_since_infall, t, 'time_since_infall', rtol=2e-3, atol=1e-2, **inputs)
            t = h.time_since_infall
            ck.expect(h.z_eval == zi, 'subhalos_are_evaluated_at_infall', **inputs)
            first = bool(rng.integers(0, 2))
            named = name.startswith('TRUNCATION')
            mb = h.bound_mass_galacticus_definition if (first and named) else None
            rt = h.profile_args[1]
            norm = h.rescale_norm
            if named:
                mb = h.bound_mass_galacticus_definition
            rhos, rs, r200 = h.nfw_params
            m0 = h.mass / gn(h.c)
            ck.close(m0, 4 * np.pi * rhos * rs ** 3, 'nfw_parameters_have_the_infall_mass', rtol=1e-6, **inputs)
            lc = np.log10(h.c)
            if name == 'TRUNCATION_GALACTICUS_KEELEY24':
                y = np.log10(mb / h.mass)
                if t < 7.6:      # beyond it is extrapolated
                    pit.add('mass loss ' + name, k24_pit(t, lc, ch, y, rng), t=t, c=lc, chost=ch, mass=np.log10(h.mass))
                ck.close(norm, 1.0, 'normalization_of_a_truncated_profile', rtol=1e-9, **inputs)
                ck.expect(rt > 0, 'truncation_radius_is_positive', **inputs)
                if -5.9 < y < -0.01:
                    # the inversion is tabulated
                    tol = 0.02 if y < -0.15 else 0.15
                    ck.close(m_in(h.c, rt / rs) * m0, mb, 'profile_contains_the_bound_mass', rtol=tol, **inputs)
                    ck.close(h.bound_mass, mb, 'bound_mass_is_the_one_prescribed', rtol=tol, **inputs)
            else:
                if not named:
                    mb = norm * m0 * m_tot(rt / rs)     # implied by the profile
                y = np.log10(mb / h.mass)
                built_from(ck, h, mb, rt, norm, inputs)
                ck.expect(0 < norm <= 1 + 1e-9, 'normalization_not_above_one', norm=norm, **inputs)
                ck.close(h.bound_mass, norm * m0 * m_in(h.c, rt / rs), 'bound_mass_is_that_inside_the_virial_radius', rtol=3e-3, **inputs)
                ck.expect(h.bound_mass <= mb * 1.003, 'mass_in_the_virial_radius_not_above_the_bound_mass', **inputs)
                r = np.geomspace(1e-3 * rs, 1e3 * max(rt, rs), 1500)
                if 1e-3 < rt / rs < 100 and mb > 1e5 and y > -4:
                    mm = np.trapezoid(4 * np.pi * r ** 3 * h.density_profile_3d_lenstronomy(r), np.log(r))
                    ck.close(mm, mb, 'exported_profile_contains_the_bound_mass', rtol=2e-2, **inputs)
                if name == 'TRUNCATION_GALACTICUS':
                    pit.add('mass loss ' + name, loss_pit('t', t, lc, ch, y, rng), t=t, c=lc, chost=ch, mass=np.log10(h.mass))
                elif name == 'TRUNCATION_GALACTICUS_ZINFALL':
                    if zi - w.zl < 8.0:
                        pit.add('mass loss ' + name, loss_pit('z', zi - w.zl, lc, ch, y, rng), t=zi - w.zl, c=lc, chost=ch, mass=np.log10(h.mass))
                elif name == 'MILKY_WAY':
                    # implied bound masses carry the accuracy of the profile
                    if y < -0.02:
                        pit.add('mass loss ' + name, loss_pit('m30', t, lc, ch, y, rng) / loss_pit('m30', t, lc, ch, -0.02, rng),
                                t=t, c=lc, chost=ch)
                elif name == 'BOUND_MASS_PDF':
                    if y < -0.01:
                        pit.add('mass loss ' + name, ndtr((y - mu) / sg) / ndtr((-0.01 - mu) / sg), mu=mu, sg=sg)
                else:
                    zc = min(max(w.zl, 0.2), 1.2)
                    sc, lo = np.interp(zc, [0.2, 0.5, 0.8, 1.2], [2.5, 1.8, 1.2, 0.6]), np.interp(zc, [0.2, 0.5, 0.8, 1.2], [-4.0, -1.3, -1.0, -1.0])
                    pit.add('mass loss ' + name, stats.truncnorm.cdf(y, (-10 - lo) / sc, -lo / sc, loc=lo, scale=sc), mass=np.log10(h.mass), zl=w.zl)
            if name == 'BOUND_MASS_PDF' and 1e-3 < rt / rs < 1e3:
                ck.expect(mb <= 0.999 * h.mass * 1.003, 'bound_mass_is_positive_and_at_most_the_infall_mass', bound=mb, **inputs)
            if name.startswith('TRUNCATION_GAL') and not name.endswith('APPROX') and (t < 7.6 or not name.endswith('24')):
                # many draws for one halo
                tr = w.truncation(s['trunc'], **s['tkw'])
                for _ in range(30):
                    yy = np.log10(tr.calculate_mbound(h) / h.mass)
                    ck.expect(yy <= 1e-12, 'bound_mass_is_positive_and_at_most_the_infall_mass', y=yy, **inputs)
                    if name.endswith('ZINFALL'):
                        if zi - w.zl < 8:
                            pit.add('bound mass ' + name, loss_pit('z', zi - w.zl, lc, ch, yy, rng), dz=zi - w.zl, c=lc, chost=ch, z=w.zl)
                    else:
                        pit.add('bound mass ' + name, k24_pit(t, lc, ch, yy, rng) if 'KEELEY' in name else loss_pit('t', t, lc, ch, yy, rng), t=t, c=lc,
                                chost=ch, z=w.zl)
            if name != 'BOUND_MASS_PDF':
                one_answer(ck, w, component(h, '_truncation_class', 'truncation_radius_halo'), s, name, 1000 * k + j, dict(inputs, zi=float(zi)))
            if named:
                ck.expect(0 < mb <= h.mass * (1 + 1e-12), 'bound_mass_is_positive_and_at_most_the_infall_mass', bound=mb, **inputs)
                ck.expect(h.bound_mass_galacticus_definition == mb, 'bound_mass_is_a_property_of_the_halo', **inputs)
            else:
                try:
                    h.bound_mass_galacticus_definition
                    ck.fail('bound_mass_definition_only_for_galacticus_models', **inputs)
                except Exception:
                    ck.count('bound_mass_definition_only_for_galacticus_models')
            ck.expect(0 < h.bound_mass <= h.mass * (1 + 1e-6), 'mass_in_the_virial_radius_at_most_the_infall_mass', bound=h.bound_mass, **inputs)
            ck.case(dict(inputs, k=k, j=j))


def given_bound_mass(ck, rng, k):
    """more stripping gives a smaller, less concentrated and less massive profile"""
    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
    w = World(rng)
    m, zi = float(10 ** rng.uniform(6, 10)), float(w.zl + rng.uniform(0.1, 4))
    model = str(rng.choice(['DIEMERJOYCE19', 'LUDLOW2016']))
    last = None
    for f in [sorted([0.9, 0.5, 0.2, 0.05, 0.01, 1e-3, 1e-4], reverse=True)[i] for i in sorted(rng.permutation(7)[:4])]:
        h = TNFWSubhalo.simple_setup(m, f, zi, 0.1, -0.2, w.zl, w.lc, concentration_model=model) if k % 2 else \
            TNFWSubhalo.simple_setup(m, f, zi, 0.1, -0.2, w.zl, w.lc)
        rt, norm = h.profile_args[1], h.rescale_norm
        inputs = dict(f=f, mass=m, zinf=zi, model=model)
        built_from(ck, h, f * m, rt, norm, inputs)
        ck.close(h.bound_mass_galacticus_definition, f * m, 'bound_mass_is_the_one_prescribed', rtol=1e-12, **inputs)
        if last is not None:
            ck.expect(rt < last[0] and norm <= last[1] and h.bound_mass < last[2], 'more_stripping_gives_a_smaller_profile', last=last,
                      now=(rt, norm, h.bound_mass), **inputs)
        last = (rt, norm, h.bound_mass)
        for name in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_CDM_APPROX'):
            s = w.spec('TNFW_SUB', mass=m, rng=rng)
            s.update(model='DIEMERJOYCE19', zinf=zi, trunc=name, tkw={} if name.endswith('APPROX') else dict(c_host=5.0))
            g = w.make(s)
            tr = w.truncation(s['trunc'], **s['tkw'])
            a = tr.truncation_radius_from_bound_mass(g, f * m)
            built_from(ck, g, f * m, a, g.rescale_norm, dict(inputs, trunc=name))
    ck.case(dict(given=True, mass=m, zinf=zi, k=k))


def direct(ck, rng, k, pit):
    """the functions of the models called with numbers"""
    from pyHalo.Halos.galacticus_truncation import interp_mass_loss as im
    from pyHalo.Halos import tidal_truncation as tt
    w = World(rng)
    # mass loss interpolations
    todo = [('t', im.InterpGalacticus(), 't'), ('z', im.InterpGalacticusZinfall(), 'z'), ('m30', im.InterpGalacticusMW(30), 'm30'),
            ('m50', im.InterpGalacticusMW(50), 'm50'), ('m200', im.InterpGalacticusMW(200), 'm200'), ('k', im.InterpGalacticusKeeley24(), None)]
    for nm, f, tab in todo:
        for _ in range(200):
            if nm == 'k':
                p = float(rng.uniform(0, 7.6)), float(rng.uniform(0.31, 2.3)), float(rng.uniform(2, 8))
                y = f(p[1], p[0], p[2])
                pit.add('tabulated mass loss ' + nm, k24_pit(p[0], p[1], p[2], y, rng), t=p[0], c=p[1], chost=p[2])
            else:
                wide = rng.integers(0, 4) == 0
                tmax, cmax = AX[tab][0][-1], AX[tab][1][-1]
                lo, hi = (4.0, 8.0) if tab in 'tz' else (6.0, 12.0)
                # outside of the tabulated range the edge applies
                p = (float(rng.uniform(-0.5 if wide else 0.0, (tmax + 2 if wide and tab != 'z' else tmax))),
                     float(rng.uniform(0.1 if wide else 0.31, cmax + (0.3 if wide else 0))), float(rng.uniform(lo - (2 if wide else 0), hi)))
                y = f(p[1], p[0], p[2])
                pit.add('tabulated mass loss ' + nm, loss_pit(tab, *p, y, rng), t=p[0], c=p[1], chost=p[2])
            ck.expect(y <= 0 and np.isfinite(y), 'bound_fraction_at_most_one', table=nm, y=y, p=p)
            # with the random source held at a quantile the answer is the tabulated quantile
            q = float(rng.normal())
            with held_normal(q) as held:
                y = f(p[1], p[0], p[2])
            if held[0] == 1:
                if nm == 'k':
                    pp = [np.clip(v, x[0], x[-1]) for v, x in zip((p[0], p[2], p[1]), K24)]
                    want = float(KM(pp)[0]) + q * max(float(KS(pp)[0]), 0.001)
                else:
                    pp = [np.clip(v, x[0], x[-1]) for v, x in zip(p, AX[tab])]
                    if tab in 'tz':
                        pp[2] = min(pp[2], 8.0)
                    if tab == 'z':
                        pp[0] = max(pp[0], 0.001)
                    want = np.sinh((q - float(SU[tab][0](pp)[0])) / float(SU[tab][1](pp)[0]))
                beyond = tab == 'z' and p[0] > AX['z'][0][-1]
                if not beyond:
                    ck.close(y, min(want, 0.0), 'tabulated_quantile ' + nm, rtol=1e-6, atol=1e-9, p=p, q=q)
        ck.case(dict(table=nm, k=k))
    try:
        im.InterpGalacticusMW(77)
        ck.fail('unknown_volume_is_refused')
    except ValueError:
        ck.count('unknown_volume_is_refused')
    # truncation radii from numbers; the random models are compared through the mass they imply
    ch = float(rng.uniform(4, 8))
    for _ in range(25):
        m, c, zi = float(10 ** rng.uniform(6, 10)), float(10 ** rng.uniform(0.4, 1.8)), float(w.zl + rng.uniform(0.05, 5))
        t, dz = float(rng.uniform(0, 8)), float(rng.uniform(0.001, 8))
        rs, r200 = w.lc.NFW_params_physical(m, c, zi)[1:]
        m0 = m / gn(c)
        fs = np.geomspace(1e-9, 1, 4000)
        for name, args in (('TRUNCATION_GALACTICUS', (m, c, t, zi)), ('TRUNCATION_GALACTICUS_ZINFALL', (m, c, dz, zi)),
                           ('TRUNCATION_GALACTICUS_CDM_APPROX', (m, c, zi))):
            tr = w.truncation(name, **({} if name.endswith('APPROX') else dict(c_host=round(ch, 1))))
            rt = float(tr.truncation_radius(*args))
            ck.expect(rt > 0 and np.isfinite(rt), 'truncation_radius_is_positive', model=name, args=args)
            # bound fraction for which the profile with this truncation has its own mass
            if 1e-4 < rt / rs < 100:
                need = np.array([f_norm(q * m / m0) for q in fs]) * m0 * m_tot(rt / rs) - fs * m
                i = np.nonzero(np.diff(np.sign(need)))[0]
                if len(i):
                    y = np.log10(fs[i[-1]])
                    if y < -0.05 and not name.endswith('APPROX'):
                        tab = 't' if name == 'TRUNCATION_GALACTICUS' else 'z'
                        a = (t if tab == 't' else dz, np.log10(c), round(ch, 1))
                        pit.add('truncation radius ' + name, loss_pit(tab, *a, y, rng) / loss_pit(tab, *a, -0.05, rng), t=a[0], c=c, chost=ch)
            ck.case(dict(direct=name, m=m, c=c, k=k))
        # keeley
        tr = w.truncation('TRUNCATION_GALACTICUS_KEELEY24', c_host=round(ch, 1))
        tk = float(rng.uniform(0.0, 7.5))
        rt = tr.truncation_radius(m, c, tk, round(ch, 1), zi)
        y = np.log10(m_in(c, rt / rs) / gn(c))
        if -5 < y < -0.02:
            pit.add('truncation radius KEELEY24', k24_pit(tk, np.log10(c), round(ch, 1), y, rng) / k24_pit(tk, np.log10(c), round(ch, 1), -0.02, rng),
                    t=tk, c=c, chost=ch)


def prescribed(ck, rng, k, pit):
    """models that prescribe a radius or a density"""
    from colossus.cosmology import cosmology as cc
    from colossus.lss import peaks
    from colossus.halo import splashback
    w = World(rng)
    rhoc = lambda z: w.ap.critical_density(z).to('Msun/kpc3').value
    for j in range(14):
        sub = bool(rng.integers(0, 2))
        s = w.spec('TNFW_SUB' if sub else 'TNFW_FIELD', rng=rng, z=None)
        name = str(rng.choice(['TRUNCATION_R50', 'TRUNCATION_R200', 'TRUNCATION_RN', 'TRUNCATION_ROCHE', 'TRUNCATION_ROCHE_GILMAN2020', 'SPLASHBACK',
                               'TRUNCATION_MEAN_DENSITY', 'MULTIPLE_RS', 'CONSTANT']))
        tk, want = {}, None
        if name == 'TRUNCATION_RN' and rng.integers(0, 2):
            tk = dict(LOS_truncation_factor=float(rng.uniform(20, 500)))
        if name == 'TRUNCATION_ROCHE' and rng.integers(0, 2):
            tk = dict(RocheNorm=float(rng.uniform(0.5, 2)), m_power=float(rng.uniform(0.2, 0.5)), RocheNu=float(rng.uniform(0.3, 1)))
        if name == 'TRUNCATION_MEAN_DENSITY':
            tk = dict(median_rt_over_rs=float(rng.uniform(0.5, 3)), c_power=float(rng.uniform(1, 4))) if rng.integers(0, 2) else {}
            if rng.integers(0, 2):
                tk['intrinsic_scatter'] = float(rng.uniform(0.05, 0.3))
        if name == 'MULTIPLE_RS':
            tk = dict(tau=float(rng.uniform(0.3, 30)))
        if name == 'CONSTANT':
            tk = dict(rt_arcsec=float(rng.uniform(0.1, 3)))
        s['trunc'], s['tkw'] = name, tk
        h = w.make(s)
        z = h.z_eval
        ck.expect(z == (s['zinf'] if sub else s['z']), 'redshift_of_evaluation', sub=sub)
        rt = h.profile_args[1]
        inputs = dict(model=name, kw=tk, mass=s['mass'], sub=sub, z=s['z'], zinf=s['zinf'], r3d=s['r3d'])
        ck.expect(rt > 0 and np.isfinite(rt), 'truncation_radius_is_positive', **inputs)
        tr = w.truncation(name, **tk)
        if name in ('TRUNCATION_R50', 'TRUNCATION_R200', 'TRUNCATION_RN'):
            n = {'TRUNCATION_R50': 50, 'TRUNCATION_R200': 200}.get(name, tk.get('LOS_truncation_factor', 50))
            ck.close(s['mass'] / (4 * np.pi / 3 * rt ** 3) / rhoc(z), n, 'mean_density_inside_the_truncation_radius', rtol=5e-3, **inputs)
            ck.close(tr.truncation_radius(s['mass'], z), rt, 'direct_call_agrees', rtol=1e-9, **inputs)
        elif name.startswith('TRUNCATION_ROCHE'):
            want = tk.get('RocheNorm', 1.4) * (s['mass'] / 1e7) ** tk.get('m_power', 1 / 3) * (s['r3d'] / 50) ** tk.get('RocheNu', 2 / 3)
            ck.close(rt, want, 'roche_radius', rtol=1e-9, atol=6e-4, **inputs)
            ck.close(tr.truncation_radius(s['mass'], s['r3d']), rt, 'direct_call_agrees', rtol=1e-9, **inputs)
        elif name == 'SPLASHBACK':
            cc.setCosmology('own', dict(flat=True, H0=w.H0, Om0=w.Om0, Ob0=0.049, sigma8=0.81, ns=0.965))
            nu = peaks.peakHeight(s['mass'] * w.ap.h, z)
            q, _ = splashback.splashbackModel('RspR200m', nu200m=nu, z=z, rspdef='sp-apr-mn')
            want = q * (3 * s['mass'] / (4 * np.pi * 200 * rhoc(z) * w.ap.Om(z))) ** (1 / 3)
            ck.close(rt, want, 'splashback_radius', rtol=1e-2, **inputs)
        elif name == 'TRUNCATION_MEAN_DENSITY':
            cm = w.concentration('DIEMERJOYCE19').nfw_concentration(s['mass'], z)
            rs = h.nfw_params[1]
            mid = tk.get('median_rt_over_rs', 2.0) * (h.c / cm) ** tk.get('c_power', 3.0)
            sc = tk.get('intrinsic_scatter', 0.0)
            if sc:
                u = rt / rs / mid
                pit.add('scatter of mean density', ndtr((u - 1) / sc) - ndtr((-u - 1) / sc), sc=sc)
            else:
                ck.close(rt / rs, mid, 'truncation_in_units_of_the_scale_radius', rtol=2e-2 if s['model'] != 'DIEMERJOYCE19' else 1e-6, **inputs)
        elif name == 'MULTIPLE_RS':
            ck.close(rt, tk['tau'] * h.nfw_params[1], 'truncation_in_units_of_the_scale_radius', rtol=1e-9, **inputs)
            ck.close(tr.truncation_radius(2.5), 2.5 * tk['tau'], 'direct_call_agrees', rtol=1e-12, **inputs)
        else:
            ck.close(rt, tk['rt_arcsec'] * refs.kpa(w.ap, s['z']), 'constant_truncation_is_in_arcsec', rtol=1e-2, **inputs)
        if sub and name != 'CONSTANT':
            rhos, rs, _ = h.nfw_params
            ck.close(h.rescale_norm, 1.0, 'normalization_of_a_truncated_profile', rtol=1e-12, **inputs)
            ck.close(h.bound_mass, h.mass / gn(h.c) * m_in(h.c, rt / rs), 'bound_mass_is_that_inside_the_virial_radius', rtol=1e-3, **inputs)
            ck.expect(0 < h.bound_mass <= h.mass * (1 + 1e-9), 'mass_in_the_virial_radius_at_most_the_infall_mass', **inputs)
        ck.case(dict(inputs, k=k))
    # scatter needs more draws than halos
    tr = w.truncation('TRUNCATION_MEAN_DENSITY', intrinsic_scatter=0.2)
    for _ in range(40):
        m, c = float(10 ** rng.uniform(6, 9)), float(rng.uniform(5, 30))
        rt = tr.truncation_radius(m, 0.7, 12.0, c, 0.2)
        u = rt / w.lc.NFW_params_physical(m, c, 0.7)[1] / (2.0 * (c / 12.0) ** 3)
        pit.add('scatter of mean density', ndtr((u - 1) / 0.2) - ndtr((-u - 1) / 0.2), sc=0.2)


def body(ck):
    pit = Pit()
    for k in range(150 if THOROUGH else 14):
        for name, f in (('infall', infall), ('galacticus', galacticus), ('direct', direct), ('prescribed', prescribed)):
            with ck.scenario(name, k=k):
                seed_global('C09', name, k)
                f(ck, rng_for('C09', name, k), k, pit)
        with ck.scenario('given_bound_mass', k=k):
            given_bound_mass(ck, rng_for('C09g', k), k)
        if ck.out_of_time(0.9):
            break
    pit.judge(ck)


if __name__ == '__main__':
    vf.main('C09', RULE, body)
