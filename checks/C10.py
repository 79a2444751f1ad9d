import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from scipy import stats
from vf import THOROUGH, rng_for, seed_global
from worlds import World, ALL
from C08 import readers, read, same
import C09

SUBT = ['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL']
FIELDT = [('MULTIPLE_RS', lambda g: dict(tau=round(float(g.uniform(1, 20)), 2))), ('TRUNCATION_RN', lambda g: {}), ('TRUNCATION_R50', lambda g: {}),
          ('TRUNCATION_RN', lambda g: dict(LOS_truncation_factor=round(float(g.uniform(20, 300)), 1))), ('CONSTANT', lambda g: dict(rt_arcsec=0.7)),
          ('TRUNCATION_R200', lambda g: {}), ('SPLASHBACK', lambda g: {})]
CONC = [('DIEMERJOYCE19', {}), ('LUDLOW2016', {}), ('PEAK_HEIGHT_POWERLAW', dict(c0=17.0, zeta=-0.2, beta=0.8)),
        ('WDM_HYPERBOLIC', dict(log_mc=7.6, a=0.3, b=0.6)), ('WDM_POLYNOMIAL', dict(log_mc=7.4)), ('LUDLOW_WDM', dict(log_mc=7.2, dlogT_dlogk=-2.0)),
        ('PEAK_HEIGHT_POWERLAW', dict(c0=1.5, zeta=-0.2, beta=0.8)),
        ('BINNED_HALO_MASS', dict(log10_mass_bins=[(4.0, 7.0), (7.0, 8.5), (8.5, 12.0)], normalization_list=[17.0, 8.0, 30.0],
                                  beta_list=[0.8, 0.3, 1.0], zeta_list=[-0.2, 0.1, -0.3])), ('CUSTOM', None), ('CONSTANT', None)]


class Custom(object):
    """a user's own relation: one halo at a time"""
    name = 'CUSTOM'

    def nfw_concentration(self, m, z):
        m = float(m)
        return 4.0 + 0.7 * np.log10(m) / (1 + float(z)) if m > 1e7 else 6.0


def concentration(w, rng, name, kw, scatter=False, **more):
    if name == 'CUSTOM':
        return Custom()
    if name == 'CONSTANT':
        return w.concentration('CONSTANT', c=round(float(rng.uniform(4, 20)), 1))
    from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
    from pyHalo.concentration_models import preset_concentration_models
    k = dict(cosmo=w.ap, scatter=scatter, **dict(kw, **more))
    if name in ('WDM_HYPERBOLIC', 'WDM_POLYNOMIAL'):
        k.update(concentration_cdm_class=ConcentrationDiemerJoyce, kwargs_cdm={})
    cls, k = preset_concentration_models(name, k)
    return cls(**k)


def compare(ck, batch, alone, key, rtol=1e-6, **detail):
    """everything observable of a halo of the batch and of the same halo on its own"""
    for nm, f in readers(alone):
        a, b = read(alone, f), read(batch, f)
        if nm == 'time_since_infall' and a[0] == b[0] == 'f':
            ck.close(b[1], a[1], key, rtol=1e-3, atol=2e-2, property=nm, **detail)
            continue
        # the exported angles are rounded, and the bound mass may be computed from them
        ck.expect(same(b, a, 1e-3 if nm == 'bound_mass' else (1e-4 if 'TNFW_SUB' in key else rtol)), key, property=nm, batch=b, alone=a, kind=type(alone).__name__, **detail)


def build(w, rng, n, wild, early):
    """specifications of a mixture; the models that the subhalos / field halos of the mixture share"""
    st = str(rng.choice(SUBT))
    ch = round(float(rng.uniform(4, 7.9)), 1)
    tsub = (st, dict(c_host=ch))
    i = int(rng.integers(0, len(FIELDT)))
    tfield = (FIELDT[i][0], FIELDT[i][1](rng))
    kinds = ['TNFW_SUB'] * 4 + ['TNFW_FIELD'] * 4 + ['TNFWC_EVOLVING'] * 3 + ['NFW_SUB', 'NFW_FIELD'] + (list(ALL) if wild else [])
    specs = []
    for _ in range(n):
        s = w.spec(str(rng.choice(kinds)), rng=rng)
        if s['kind'] == 'TNFW_SUB':
            s['trunc'], s['tkw'] = tsub
        elif s['kind'] == 'TNFW_FIELD':
            s['trunc'], s['tkw'] = tfield
        elif s['trunc'].startswith('TRUNCATION_GALACTICUS'):
            s['trunc'], s['tkw'] = 'TRUNCATION_R50', {}
        if rng.integers(0, 8) == 0:
            s['mass'] = float(10 ** rng.uniform(5.1, 11.3))
            if 'mass_conservation' in s['args']:
                s['args']['mass_conservation'] = 0.6 * s['mass']
        if s['kind'] == 'TNFW_SUB':
            s['mb'] = float(s['mass'] * 10 ** -rng.uniform(0.02, 3.5))
        s['zinf'] = float(s['z'] + (rng.choice([1e-4, 0.02, 8.5]) if rng.integers(0, 10) == 0 else rng.uniform(0.01, 6)))
        if s['kind'] == 'TNFWC_EVOLVING' and early:
            s['zinf'] = float(rng.uniform(8, 12))
        if 'z_infall' in s['args']:
            s['args']['z_infall'] = s['zinf']
        specs.append(s)
    return specs, tsub, tfield


def make(w, s, cc):
    """a halo of the mixture with the concentration model of the mixture"""
    both = cc if isinstance(cc, list) else [cc]
    w._conc = lambda q: both[int(q['tag'] * 1e6) % len(both)] if q['kind'] in ('TNFW_SUB', 'TNFW_FIELD', 'NFW_SUB', 'NFW_FIELD', 'TNFWC_EVOLVING', 'CNFW', 'TNFWC') else World._conc(w, q)
    h = w.make(s)
    if 'mb' in s:
        h._mbound_galacticus_definition = s['mb']
    return h


def mixture(ck, rng, k):
    from pyHalo.Halos import batch_halo_util as bu
    from pyHalo.single_realization import Realization
    w = World(rng)
    cname, ckw = CONC[int(rng.integers(0, len(CONC)))]
    specs, tsub, tfield = build(w, rng, int(rng.choice([1, 2, 3, 10, 40])), wild=k % 2 == 0, early=ckw is None)
    cc = concentration(w, rng, cname, ckw)
    pair = cc
    if k % 3 == 0:
        # two models of one kind with different parameters, and many halos of both on one plane
        kw2 = dict(ckw) if ckw is not None else None
        for p, f in (('c0', 1.9), ('log_mc', 1.07), ('normalization_list', None)):
            if kw2 and p in kw2:
                kw2[p] = kw2[p][::-1] if f is None else kw2[p] * f
        pair = [cc, concentration(w, rng, cname, kw2)]
        some = [float(v) for v in rng.choice(w.planes[3:], 2)]
        for s in specs:
            if s['kind'] in ('TNFW_FIELD', 'NFW_FIELD') and not s['is_sub']:
                s['z'] = some[int(rng.integers(0, 2))]
    alone, batch = [make(w, s, pair) for s in specs], [make(w, s, pair) for s in specs]
    # some halos were rescaled or used before
    for a, b in zip(alone, batch):
        if rng.integers(0, 8) == 0:
            f = float(rng.uniform(0.5, 1.5))
            a.rescale_normalization(f)
            b.rescale_normalization(f)
    used = []
    for i, (a, b) in enumerate(zip(alone, batch)):
        if rng.integers(0, 5) == 0:
            rd = readers(b)
            for j in rng.permutation(len(rd))[:int(rng.integers(1, 4))]:
                read(b, rd[j][1])
            used.append(i)
    perm = [int(i) for i in rng.permutation(len(batch))]
    kind = ['realization', 'by hand', 'in parts', 'twice'][k % 4]
    ts, tf = w.truncation(tsub[0], **tsub[1]), w.truncation(tfield[0], **tfield[1])
    kw = {'truncation_model_subhalos': ts, 'truncation_model_field_halos': tf, 'concentration_model': cc, 'kwargs_density_profile': {}}

    def by_hand(hs):
        todo = [lambda: bu.precompute_concentrations([h for h in hs if hasattr(h, '_concentration_class') and h.mdef in ('TNFW', 'NFW', 'TNFWC')]),
                lambda: bu.precompute_infall_times(hs, w.lc),
                lambda: bu.precompute_nfw_params([h for h in hs if h.mdef in ('NFW',)]),
                lambda: bu.precompute_tnfw_subhalos([h for h in hs if type(h).__name__ == 'TNFWSubhalo'], ts),
                lambda: bu.precompute_tnfw_field_halos([h for h in hs if type(h).__name__ == 'TNFWFieldHalo'], tf),
                lambda: bu.precompute_sidm_evolving_profiles([h for h in hs if type(h).__name__ == 'TNFWCHaloEvolving'])]
        order = [int(i) for i in rng.permutation(len(todo))]
        for i in order:
            todo[i]()
        bu.precompute_tnfw_bound_masses([h for h in hs if type(h).__name__ == 'TNFWSubhalo'])
        for h in hs:
            if type(h).__name__ == 'TNFWSubhalo' and hasattr(h, '_bound_mass'):
                ck.close(h._bound_mass, h.bound_mass, 'bound_mass_assigned_by_the_batch', rtol=1e-3)
        return order
    order = None
    before = [(h.mass, h.x, h.y, h.z, h.unique_tag) for h in batch]
    if kind == 'by hand':
        order = by_hand([batch[i] for i in perm])
    elif kind == 'in parts':
        cut = sorted(int(v) for v in rng.integers(0, len(batch) + 1, 2))
        for part in (perm[:cut[0]], perm[cut[0]:cut[1]], perm[cut[1]:]):
            by_hand([batch[i] for i in part])
    else:
        real = Realization.from_halos([batch[i] for i in perm], w.lc, kw, False, None, None, None, w.geo)
        for _ in range(2 if kind == 'twice' else 1):
            bu.precompute_realization(*((real,) if rng.integers(0, 2) else (real, kw)))
    detail = dict(how=kind, concentration=cname, subhalos=tsub[0], field=tfield[0], n=len(specs), used=len(used), order=order)
    ck.expect(before == [(h.mass, h.x, h.y, h.z, h.unique_tag) for h in batch], 'batch_leaves_the_halos_in_place', **detail)
    todo = range(len(specs)) if len(specs) < 12 else [int(i) for i in rng.choice(len(specs), 12, replace=False)]
    for i in todo:
        compare(ck, batch[i], alone[i], 'batch_equals_alone %s' % specs[i]['kind'], spec=specs[i], used_before=i in used, **detail)
    ck.case(dict(k=k, n=len(specs), kinds=sorted(set(s['kind'] for s in specs))[:6], **{q: detail[q] for q in ('how', 'concentration', 'subhalos', 'field')}),
            nontrivial=len(specs) > 1)


def joined(ck, rng, k):
    """a realization whose halos come from two models"""
    from pyHalo.Halos import batch_halo_util as bu
    from pyHalo.single_realization import Realization
    w = World(rng)
    t = [('TRUNCATION_GALACTICUS', dict(c_host=4.5)), ('TRUNCATION_GALACTICUS_ZINFALL', dict(c_host=7.5)), ('TRUNCATION_ROCHE', {}),
         ('MULTIPLE_RS', dict(tau=3.0))]
    f = [('MULTIPLE_RS', dict(tau=2.0)), ('MULTIPLE_RS', dict(tau=15.0)), ('TRUNCATION_RN', {})]
    specs = []
    for i in range(12):
        s = w.spec('TNFW_SUB' if i % 2 else 'TNFW_FIELD', rng=rng)
        s['trunc'], s['tkw'] = (t if i % 2 else f)[int(rng.integers(0, len(t if i % 2 else f)))]
        if s['trunc'].startswith('TRUNCATION_GALACTICUS'):
            s['mb'] = float(s['mass'] * 10 ** -rng.uniform(0.1, 2))
        s['model'], s['c'] = 'CONSTANT', float(round(rng.uniform(4, 20), 1))
        if i % 4 == 0:
            s['z'] = float(w.planes[5])
        specs.append(s)
    mk = lambda s: World.make(w, s)
    out = []
    for s in specs:
        pair = []
        for _ in range(2):
            h = w.make(s)
            if 'mb' in s:
                h._mbound_galacticus_definition = s['mb']
            pair.append(h)
        out.append(pair)
    kw = {'truncation_model_subhalos': w.truncation(t[0][0], **t[0][1]), 'truncation_model_field_halos': w.truncation(f[0][0], **f[0][1]),
          'concentration_model': w.concentration('CONSTANT', c=9.0), 'kwargs_density_profile': {}}
    real = Realization.from_halos([p[0] for p in out], w.lc, kw, False, None, None, None, w.geo)
    bu.precompute_realization(real)
    for s, (b, a) in zip(specs, out):
        compare(ck, b, a, 'halos_of_another_model_keep_their_model ' + s['kind'], spec=s)
    ck.case(dict(joined=True, k=k))


def numbers(ck, rng, k):
    """the array functions against the one-at-a-time functions and closed forms"""
    from pyHalo.Halos import batch_halo_util as bu
    from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import compute_r_te_and_f_t
    w = World(rng)
    n = int(rng.choice([1, 2, 30]))
    m, c, z = 10 ** rng.uniform(5.1, 11.4, n), rng.uniform(1.5, 80, n), rng.uniform(0.02, 9, n)
    pseudo = rng.integers(0, 2, n).astype(bool)
    if rng.integers(0, 2):
        pseudo = bool(pseudo[0])
    got = bu.nfw_params_physical_vectorized(w.lc, m, c, z, pseudo)
    p = np.broadcast_to(pseudo, (n,))
    rhoc = w.ap.critical_density(z).to_value('solMass/kpc3')
    r200 = (3 * m / (800 * np.pi * rhoc)) ** (1 / 3.)
    mu = np.where(p, 0.5 * np.log(1 + c ** 2), np.log(1 + c) - c / (1 + c))
    rhos = m / (4 * np.pi * (r200 / c) ** 3 * mu)
    for i in range(n):
        one = w.lc.NFW_params_physical(m[i], c[i], z[i], bool(p[i]))
        for j, nm in enumerate(('rhos', 'rs', 'r200')):
            ck.close(got[j][i], one[j], 'array_nfw_parameters ' + nm, rtol=1e-9, m=m[i], c=c[i], z=z[i], pseudo=bool(p[i]))
    for g, want, nm in zip(got, (rhos, r200 / c, r200), ('rhos', 'rs', 'r200')):
        ck.close(g, want, 'array_nfw_parameters_definition ' + nm, rtol=2e-3)    # rounding of the critical density constant
    # truncation radius and normalization for a bound mass; the answer of one halo does not depend on the others in the array
    mb = m * 10 ** -rng.uniform(0.002, 6 if rng.integers(0, 3) == 0 else 2.5, n)
    ra, fa = bu.compute_r_te_and_f_t_vectorized(mb, m, r200, c)
    for i in range(n):
        r1, f1 = compute_r_te_and_f_t(mb[i], m[i], r200[i], c[i])
        ck.close(ra[i], r1, 'array_truncation_radius', rtol=1e-4, fb=mb[i] / m[i], c=c[i], n=n)
        ck.close(fa[i], f1, 'array_normalization', rtol=1e-8, fb=mb[i] / m[i], c=c[i], n=n)
        rs, fs = bu.compute_r_te_and_f_t_vectorized(mb[i], m[i], r200[i], c[i])
        ck.close(np.ravel(rs)[0], ra[i], 'answer_independent_of_the_others', rtol=1e-4, n=n)
        ck.close(fa[i], C09.f_norm(mb[i] / (m[i] / C09.gn(c[i]))), 'array_normalization_definition', rtol=1e-6, fb=mb[i] / m[i], c=c[i])
    ck.case(dict(numbers=True, k=k, n=n))
    # concentrations
    for name, kw in CONC:
        cc = concentration(w, rng, name, kw)
        zz = float(rng.uniform(0.01, 6))
        got = bu.batch_nfw_concentration(cc, m, zz)
        ck.expect(len(got) == n, 'one_concentration_for_each_halo', model=name)
        want = [float(np.squeeze(cc.nfw_concentration(float(v), zz))) for v in m]
        ck.close(got, want, 'array_concentrations ' + name, rtol=1e-6, z=zz, n=n)
        ck.case(dict(conc=name, k=k))


def laws(ck, rng, k, pit):
    """the array draws follow the laws of the one-at-a-time draws"""
    from pyHalo.Halos import batch_halo_util as bu
    infall = (['HYBRID_INFALL', 'DIRECT_INFALL'][k // 4 % 2] if k % 4 else
              str(rng.choice(['GALACTICUS_2024', 'DIRECT_INFALL_CLUSTER', 'INFALL_ZLENS', 'INFALL_0'])))
    try:
        w = World(rng, infall=infall)
    except Exception:
        infall = 'HYBRID_INFALL'
        w = World(rng, infall=infall)
    n = 1500
    m = 10 ** rng.uniform(6, 10.5, n)
    if rng.integers(0, 4) == 0:
        m[:] = 10 ** rng.uniform(6, 10.5)
    cc = w.concentration('DIEMERJOYCE19')
    ch = round(float(rng.uniform(4, 8)), 1)
    name = SUBT[k % 2]
    tr = w.truncation(name, c_host=ch)
    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
    mk = lambda: [TNFWSubhalo(float(v), 0., 0., None, w.zl, True, w.lc, {}, tr, cc, float(i)) for i, v in enumerate(m)]
    hs, ref = mk(), mk()
    bu.precompute_infall_times(hs, w.lc)
    za, zb = np.array([h.z_infall for h in hs]), np.array([h.z_infall for h in ref])
    ck.expect(np.all(za >= w.zl - 1e-9) or infall == 'INFALL_0', 'infall_before_the_lens', infall=infall)
    if np.std(zb) > 0:
        p = stats.ks_2samp(za, zb).pvalue
        ck.expect(p > 1e-7, 'infall_redshift_law ' + infall, p=p, n=n, medians=(np.median(za), np.median(zb)))
        o = np.argsort(m)
        for q in (o[:n // 2], o[n // 2:]):
            p = stats.ks_2samp(za[q], zb[q]).pvalue
            ck.expect(p > 1e-7, 'infall_redshift_law_by_mass ' + infall, p=p)
    else:
        ck.close(za, zb, 'infall_redshift_law ' + infall, rtol=1e-9)
    if infall in ('HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER', 'GALACTICUS_2024') and infall in list(C09.INFALL) + ['GALACTICUS_2024']:
        for mi, zi in zip(m, za):
            pit.add('batch infall ' + infall, C09.infall_pit(infall, w.zl, w.log_m_host, mi, zi), m=mi, zl=w.zl)
    t = [h.time_since_infall for h in hs]
    ck.close(t, [max(0.0, (w.ap.age(w.zl) - w.ap.age(z)).value) for z in za], 'time_since_infall_of_the_batch', rtol=1e-3, atol=2e-2, infall=infall)
    for h, z in list(zip(hs, za))[:40]:
        h2 = TNFWSubhalo(h.mass, 0., 0., None, w.zl, True, w.lc, {}, tr, cc, 0.)
        h2.set_infall_redshift(z)
        ck.close(h.time_since_infall, h2.time_since_infall, 'time_since_infall_equals_alone', rtol=1e-3, atol=2e-2, z=z, infall=infall)
    if infall != 'INFALL_0':
        bu.precompute_tnfw_subhalos(hs, tr)
        for h in hs:
            y = np.log10(h.bound_mass_galacticus_definition / h.mass)
            tt = h.time_since_infall if name == 'TRUNCATION_GALACTICUS' else h.z_infall - w.zl
            if name == 'TRUNCATION_GALACTICUS' or tt < 8.1:
                pit.add('batch mass loss ' + name, C09.loss_pit('t' if name == 'TRUNCATION_GALACTICUS' else 'z', tt, np.log10(h.c), ch, y, rng), t=tt,
                        c=np.log10(h.c), chost=ch)
        ck.expect(all(0 < h.bound_mass_galacticus_definition <= h.mass * (1 + 1e-12) for h in hs), 'bound_mass_at_most_infall_mass', model=name)
    # the mass loss function itself over its domain
    f = tr._mass_loss_interp
    tab = 't' if name == 'TRUNCATION_GALACTICUS' else 'z'
    lc, tt = rng.uniform(0.31, 2.5, 800), rng.uniform(-0.3, 8.1, 800)
    y = bu.galacticus_mass_loss_vectorized(f, lc, tt, ch)
    ck.expect(np.all(y <= 0) and np.all(np.isfinite(y)) and len(y) == 800, 'bound_fraction_at_most_one')
    for i in range(800):
        pit.add('array mass loss ' + name, C09.loss_pit(tab, tt[i], lc[i], ch, float(y[i]), rng), t=tt[i], c=lc[i], chost=ch)
    # the same range of host concentrations applies, one at a time and in arrays
    for c1, c2 in ((8.0, 10.0), (8.5, 8.9), (2.0, 4.0), (4.2, 7.8)):
        def draw(g, c):
            np.random.seed(k + 1)
            return np.ravel(g(c)).astype(float)
        one = [draw(lambda c: [f(1.0, 2.0, c) for _ in range(4)], c) for c in (c1, c2)]
        arr = [draw(lambda c: bu.galacticus_mass_loss_vectorized(f, np.full(4, 1.0), np.full(4, 2.0), c), c) for c in (c1, c2)]
        ck.expect(np.allclose(*one, rtol=1e-9) == np.allclose(*arr, rtol=1e-9), 'range_of_host_concentrations ' + name, one=one, array=arr, c_host=(c1, c2))
    for lc1, t1, lc2, t2 in ((0.1, 2., 0.3010299956639812, 2.), (2.58433, 2., 3.0, 2.), (1., -1., 1., -0.1), (1., 8.1, 1., 8.6), (1., 9.5, 1., 10.5)):
        def draw(g, *a):
            np.random.seed(k + 1)
            return np.ravel(g(*a)).astype(float)
        one = [draw(lambda a, b: [f(a, b, 5.0) for _ in range(4)], *q) for q in ((lc1, t1), (lc2, t2))]
        arr = [draw(lambda a, b: bu.galacticus_mass_loss_vectorized(f, np.full(4, a), np.full(4, b), 5.0), *q) for q in ((lc1, t1), (lc2, t2))]
        ck.expect(np.allclose(*one, rtol=1e-6) == np.allclose(*arr, rtol=1e-6), 'range_of_concentrations_and_times ' + name, one=one, array=arr,
                  at=(lc1, t1, lc2, t2))
    # scatter
    cname, kw = [c for c in CONC if c[1] is not None][int(rng.integers(0, 8))]
    sig = round(float(rng.uniform(0.1, 0.35)), 2)
    cs = concentration(w, rng, cname, kw, scatter=True, scatter_dex=sig)
    c0 = concentration(w, rng, cname, kw)
    mm, zz = np.full(3000, 10 ** rng.uniform(6.5, 10)), float(rng.uniform(0.2, 3))
    a, b = bu.batch_nfw_concentration(cs, mm, zz), np.array([float(np.squeeze(cs.nfw_concentration(float(v), zz))) for v in mm[:1500]])
    med = float(np.squeeze(c0.nfw_concentration(float(mm[0]), zz)))
    p = stats.ks_2samp(a, b).pvalue
    ck.expect(p > 1e-7, 'scatter_law ' + cname, p=p, med=med, batch=np.median(a), alone=np.median(b))
    ck.expect(len(np.unique(a)) >= np.sum(a > 1.2000001), 'every_halo_has_its_own_scatter ' + cname)
    p = stats.kstest(np.log(a / med) / np.std(np.log(b / med)), stats.norm.cdf).pvalue
    ck.expect(p > 1e-7 or np.min(a) < 2.2, 'scatter_is_lognormal ' + cname, p=p)
    for v in a:
        if med > 2.2 * np.exp(4 * sig):
            pit.add('array scatter', stats.norm.cdf(np.log(v / med) / sig), sig=sig)
    ck.case(dict(laws=True, k=k, infall=infall, model=name, conc=cname))


def refusals(ck, rng, k):
    from pyHalo.Halos import batch_halo_util as bu
    w = World(rng)
    s = w.spec('TNFW_SUB', rng=rng)
    h = w.make(s)
    try:
        bu.precompute_tnfw_subhalos([h], w.truncation('TRUNCATION_ROCHE'))
        ck.fail('unsupported_truncation_is_refused')
    except Exception:
        ck.count('unsupported_truncation_is_refused')
    for f, a in ((bu.precompute_tnfw_subhalos, (w.truncation('TRUNCATION_GALACTICUS', c_host=5.0),)), (bu.precompute_tnfw_field_halos, (w.truncation('MULTIPLE_RS', tau=4.),)),
                 (bu.precompute_concentrations, ()), (bu.precompute_nfw_params, ()), (bu.precompute_infall_times, (w.lc,)),
                 (bu.precompute_sidm_evolving_profiles, ()), (bu.precompute_tnfw_bound_masses, ())):
        f([], *a)
        ck.count('empty_batches_are_fine')
    ck.case(dict(refusals=True, k=k))


def body(ck):
    n = 60 if THOROUGH else 10
    pit = C09.Pit()
    for k in range(n):
        for part, reps, args in ((mixture, 8, ()), (joined, 2, ()), (numbers, 3, ()), (laws, 1, (pit,)), (refusals, 1, ())):
            for j in range(reps):
                seed_global('C10', part.__name__, k, j)
                with ck.scenario(part.__name__, k=k, j=j):
                    part(ck, rng_for('C10', part.__name__, k, j), k * reps + j, *args)
        if ck.out_of_time() and k >= 3:
            break
    pit.judge(ck)


if __name__ == '__main__':
    vf.main('C10', 'batch evaluation against one halo at a time', body)
