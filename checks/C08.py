import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import copy
import numpy as np
from vf import THOROUGH, rng_for, seed_global
from worlds import World, ALL, SIMPLE

RULE = ('halos of every type read in random orders, with repeats, through copies and after a change of normalization; a case is one '
        'halo (or set of identical halos) with one history of reads, whose recorded values must agree')
SKIP = {'rescale_norm', 'profile', 'pseudo_nfw', 'args_profile'}
METHODS = [('mass_3d(r200)', lambda h: h.mass_3d('r200')), ('mass_3d(1.3)', lambda h: h.mass_3d(1.3)),
           ('density_profile_3d', lambda h: h.density_profile_3d(np.array([0.2, 1.1, 6.0]))),
           ('density_profile_3d_lenstronomy', lambda h: h.density_profile_3d_lenstronomy(np.array([0.2, 1.1, 6.0]))),
           ('deflection_angle', lambda h: h.deflection_angle(np.array([0.01, 0.05, 0.3])))]


def plainv(v):
    """comparable form of a property value; None for objects"""
    if isinstance(v, (bool, np.bool_)):
        return ('b', bool(v))
    if v is None:
        return ('none',)
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, (int, float, np.floating, np.integer)):
        return ('f', float(v))
    if isinstance(v, np.ndarray):
        return ('a',) + tuple(float(x) for x in np.ravel(v)) if v.dtype.kind in 'fiu' else None
    if isinstance(v, dict):
        items = [(k, plainv(v[k])) for k in sorted(v)]
        return None if any(p is None for _, p in items) else ('d',) + tuple(items)
    if isinstance(v, (list, tuple)):
        items = tuple(plainv(x) for x in v)
        return None if any(p is None for p in items) else ('l',) + items
    return None


def same(a, b, rtol):
    if a is None or b is None:
        return a is None and b is None
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'f':
        return a[1] == b[1] or abs(a[1] - b[1]) <= rtol * max(abs(a[1]), abs(b[1])) + 1e-300 or (a[1] != a[1] and b[1] != b[1])
    if a[0] == 'a':
        x, y = np.array(a[1:]), np.array(b[1:])
        return bool(np.all((np.abs(x - y) <= rtol * np.maximum(abs(x), abs(y)) + 1e-300) | (x == y) | ((x != x) & (y != y))))
    if a[0] == 'd':
        return all(p[0] == q[0] and same(p[1], q[1], rtol) for p, q in zip(a[1:], b[1:]))
    if a[0] == 'l':
        return all(same(p, q, rtol) for p, q in zip(a[1:], b[1:]))
    return a == b


def readers(h):
    names = [n for n in sorted(set(dir(type(h)))) if isinstance(getattr(type(h), n, None), property) and not n.startswith('_')
             and n not in SKIP and (h.is_subhalo or n != 'z_infall')]   # an infall redshift of a field halo has no meaning
    out = [(n, (lambda o, n=n: getattr(o, n))) for n in names]
    return out + [m for m in METHODS if hasattr(h, m[0].split('(')[0])]


def read(h, f):
    try:
        return plainv(f(h))
    except Exception as e:   # a property that is not defined for a type must be so always
        return ('exc', type(e).__name__)


def make_spec(w, rng, kind, deterministic, scatter):
    s = w.spec(kind, rng=rng)
    if deterministic and s['trunc'].startswith('TRUNCATION_GALACTICUS'):
        s['trunc'], s['tkw'] = str(rng.choice(['TRUNCATION_ROCHE', 'TRUNCATION_MEAN_DENSITY', 'TRUNCATION_R50'])), {}
    s['scatter'] = scatter
    return s


def tol_of(name):
    return 1e-8


def histories(ck, rng, k, kind):
    """one halo with random draws: everything read twice is the same, in any order, also through copies"""
    w = World(rng, infall=str(rng.choice(['HYBRID_INFALL', 'DIRECT_INFALL'])))
    s = make_spec(w, rng, kind, False, True)
    if s['model'] == 'DIEMERJOYCE19':
        w._c[('DIEMERJOYCE19', repr([]))] = w.concentration('DIEMERJOYCE19', scatter=True)
    h = w.make(s)
    if s['is_sub'] and kind in ('TNFW_SUB', 'NFW_SUB', 'GNFW_SUB', 'SPL_SUB', 'PJAFFE') and rng.integers(0, 2):
        h.__dict__.pop('_z_infall', None)     # drawn when needed
    rd = readers(h)
    log, trace = {}, []
    cur = h
    n = 3 * len(rd)
    for i in range(n):
        if i and rng.integers(0, 9) == 0:
            mode = str(rng.choice(['copy', 'deepcopy', 'shifted']))
            nxt = copy.copy(cur) if mode == 'copy' else (copy.deepcopy(cur) if mode == 'deepcopy' else
                                                         cur.shifted(0.0, 0.0))
            trace.append(mode)
            # values already read are those of the copy too
            for m, (f, v) in list(log.items())[:6]:
                ck.expect(same(read(nxt, f), v, tol_of(m)), 'copies_keep_the_values_already_read', kind=kind, property=m, how=mode,
                          order=trace[-8:], spec=s)
            cur = nxt if rng.integers(0, 2) else cur
        nm, f = rd[int(rng.integers(0, len(rd)))] if i >= len(rd) else rd[i if k % 3 == 0 else int(rng.integers(0, len(rd)))]
        v = read(cur, f)
        trace.append(nm)
        if nm in log:
            ck.expect(same(v, log[nm][1], tol_of(nm)), 'repeated_reads_agree', kind=kind, property=nm, first=log[nm][1], again=v,
                      order=trace[-12:], spec=s)
        else:
            log[nm] = (f, v)
    ck.case(dict(kind=kind, k=k, order=trace[:6], spec=s['trunc'], model=s['model']), nontrivial=len(log) > 3)
    # relations between the properties
    g = lambda m: read(cur, dict(rd).get(m, lambda o: getattr(o, m)))
    if kind in ('TNFW_FIELD', 'TNFW_SUB', 'FROM_PARAMS', 'EMULATOR'):
        kpa = w.lc.cosmo.kpc_proper_per_asec(cur.z)
        ex = cur.lenstronomy_params[0][0]
        pp = cur.params_physical
        rt = pp['r_trunc_kpc']
        dz = 5e-4 + 1.5e-4 / cur.z     # distances come from two tables
        atol = 2e-4 if kind in ('FROM_PARAMS', 'EMULATOR') else 0   # some exports are rounded to four decimals
        ck.close(ex['r_trunc'] * kpa, rt, 'exported_truncation_is_that_of_the_halo', rtol=dz, atol=2e-9 * kpa + atol * kpa, kind=kind, spec=s)
        ck.close(ex['Rs'] * kpa, pp['rs'], 'exported_scale_radius_is_that_of_the_halo', rtol=dz, atol=2e-9 * kpa + atol * kpa, kind=kind, spec=s)
        if kind.startswith('TNFW_'):
            ck.close(pp['rhos'], cur.nfw_params[0] * cur.rescale_norm, 'normalization_in_physical_parameters', rtol=1e-9, kind=kind, spec=s)
            ck.close(cur.profile_args[1], rt, 'truncation_in_physical_parameters', rtol=1e-12, kind=kind, spec=s)
            ck.close(cur.profile_args[0], cur.c, 'concentration_in_profile_arguments', rtol=1e-12, kind=kind, spec=s)
            r = np.array([0.3, 1.0, 4.0])
            ck.close(cur.density_profile_3d_lenstronomy(r), cur.density_profile_3d(r, scaling=cur.rescale_norm),
                     'exported_and_physical_density_agree', rtol=8e-4 + 2e-4 / cur.z, kind=kind, spec=s)
    if kind == 'TNFW_SUB':
        ck.expect(cur.z_eval == cur.z_infall, 'evaluation_redshift_is_infall_redshift', kind=kind, spec=s)


def twins(ck, rng, k, kind):
    """identical halos without random draws: any read order gives the same values"""
    w = World(rng)
    s = make_spec(w, rng, kind, True, False)
    ref = w.make(s)
    rd = readers(ref)
    want = {nm: read(ref, f) for nm, f in rd}
    for j in range(3):
        h = w.make(s)
        order = [rd[i] for i in rng.permutation(len(rd))]
        if j == 1:
            order = order[:int(rng.integers(1, 4))]
        got = []
        for nm, f in order:
            v = read(h, f)
            got.append(nm)
            ck.expect(same(v, want[nm], 1e-3 if nm == 'bound_mass' else 1e-7), 'read_order_does_not_matter', kind=kind, property=nm,
                      got=v, want=want[nm], order=got[-12:], spec=s)
        if j == 1:
            # the rest is read from a copy
            how = str(rng.choice(['copy', 'deepcopy', 'shifted']))
            h = copy.copy(h) if how == 'copy' else (copy.deepcopy(h) if how == 'deepcopy' else h.shifted(0.0, 0.0))
            for nm, f in rd:
                v = read(h, f)
                ck.expect(same(v, want[nm], 1e-3 if nm == 'bound_mass' else 1e-7), 'a_copy_read_later_agrees', kind=kind, property=nm, got=v,
                          want=want[nm], order=got, how=how, spec=s)
    ck.case(dict(kind=kind, k=k, twins=True, spec=s['trunc'], mass=s['mass']), nontrivial=len(want) > 3)
    undefined = [nm for nm, v in want.items() if v is not None and v[0] == 'exc']
    ck.count('properties_not_defined_for_a_type', len(undefined))


def rescale(ck, rng, k, kind):
    w = World(rng)
    s = make_spec(w, rng, kind, True, False)
    f = float(rng.choice([0.3, 0.9, 1.4]))
    ref = w.make(s)
    rd = readers(ref)
    base = {nm: read(ref, g) for nm, g in rd}
    ex0 = [dict(d) for d in ref.lenstronomy_params[0]]
    a, b = w.make(s), w.make(s)
    seen = []
    for i in rng.permutation(len(rd))[:int(rng.integers(1, len(rd) + 1))]:
        read(b, rd[i][1])
        seen.append(rd[i][0])
    force = bool(rng.integers(0, 2))
    a.rescale_normalization(f, force=force)
    b.rescale_normalization(f, force=force)
    ck.case(dict(kind=kind, k=k, rescale=f, force=force, read_before=seen[:5]))
    order = [rd[i] for i in rng.permutation(len(rd))]
    for nm, g in order:
        va, vb = read(a, g), read(b, g)
        ck.expect(same(va, vb, 1e-3 if nm == 'bound_mass' else 1e-7), 'rescaling_is_reflected_whatever_was_read_before', kind=kind, property=nm, got=vb,
                  want=va, read_before=seen, factor=f, spec=s)
    for d, e in zip(b.lenstronomy_params[0], ex0):
        ck.close(d['alpha_Rs'], f * e['alpha_Rs'], 'rescaling_multiplies_the_deflection', rtol=1e-6, kind=kind, factor=f, read_before=seen)
        ck.expect(all(d[q] == e[q] for q in e if q != 'alpha_Rs'), 'rescaling_changes_nothing_else', kind=kind, factor=f, read_before=seen, got=d, was=e)
    ck.close(b.rescale_norm, f, 'normalization_is_the_factor', rtol=1e-12, kind=kind)
    r = np.array([0.4, 2.0])
    if kind.startswith('TNFW_'):
        ck.close(b.mass_3d('r200'), f * base['mass_3d(r200)'][1], 'rescaling_multiplies_the_mass', rtol=1e-6, kind=kind, factor=f)
        ck.close(b.density_profile_3d_lenstronomy(r), f * ref.density_profile_3d_lenstronomy(r), 'rescaling_multiplies_the_density', rtol=1e-6,
                 kind=kind, factor=f)
        ck.close(b.vmax_nfw, np.sqrt(f) * ref.vmax_nfw, 'rescaling_changes_the_circular_velocity', rtol=1e-6, kind=kind, factor=f)
        if kind == 'TNFW_SUB':
            ck.close(b.bound_mass, f * ref.bound_mass, 'rescaling_multiplies_the_bound_mass', rtol=1e-4, kind=kind, factor=f)
    # a second request without force changes nothing, with force it multiplies again
    b.rescale_normalization(0.5)
    ck.close(b.rescale_norm, f, 'normalization_is_set_once', rtol=1e-12, kind=kind)
    b.rescale_normalization(0.5, force=True)
    ck.close(b.lenstronomy_params[0][0]['alpha_Rs'], 0.5 * f * ex0[0]['alpha_Rs'], 'forced_rescaling_multiplies_again', rtol=1e-6, kind=kind)


def conversion(ck, rng, k):
    """objects made from another halo do not depend on what had been read from it, and do not change it"""
    from pyHalo.Halos.HaloModels import sis
    w = World(rng)
    s = make_spec(w, rng, str(rng.choice(['TNFW_FIELD', 'TNFW_SUB'])), True, False)
    for cls in (sis.SIS, sis.MassiveGalaxy):
        a, b = w.make(s), w.make(s)
        rd = readers(b)
        want = {nm: read(b, f) for nm, f in rd}
        ga, gb = cls(a), cls(b)
        rg = readers(ga)
        for i in rng.permutation(len(rg)):
            nm, f = rg[i]
            va, vb = read(ga, f), read(gb, f)
            ck.expect(same(va, vb, 1e-3 if nm == 'bound_mass' else 1e-7), 'conversion_does_not_depend_on_earlier_reads', cls=cls.__name__, property=nm, got=va, want=vb, spec=s)
        ck.expect((ga.mass, ga.x, ga.y, ga.z, ga.is_subhalo, ga.unique_tag) == (a.mass, a.x, a.y, a.z, a.is_subhalo, a.unique_tag),
                  'conversion_keeps_identity', cls=cls.__name__, spec=s)
        for nm, f in rd:
            ck.expect(same(read(a, f), want[nm], tol_of(nm)), 'conversion_leaves_the_halo_unchanged', cls=cls.__name__, property=nm, spec=s)
    ck.case(dict(conversion=s['kind'], k=k, spec=s['trunc']))


def siblings(ck, rng, k):
    """halos that share models and argument dictionaries do not influence each other"""
    w = World(rng)
    kind = str(rng.choice(['TNFW_FIELD', 'TNFW_SUB', 'GNFW_FIELD', 'GNFW_SUB', 'SPL_FIELD', 'SPL_SUB', 'NFW_FIELD', 'CNFW', 'ULDM_FIELD', 'TNFWC']))
    s1 = make_spec(w, rng, kind, True, False)
    shared = dict(s1['args'])
    specs = [s1]
    for _ in range(4):
        t = make_spec(w, rng, kind, True, False)
        t['args'] = dict(s1['args'])
        specs.append(t)
    alone = []
    for t in specs:
        h = w.make(t)
        alone.append({nm: read(h, f) for nm, f in readers(h)})
    hs = [w.make(t, shared) for t in specs]
    plan = [(i, nm, f) for i, h in enumerate(hs) for nm, f in readers(h)]
    for q in rng.permutation(len(plan)):
        i, nm, f = plan[q]
        v = read(hs[i], f)
        if nm == 'args':
            continue
        ck.expect(same(v, alone[i][nm], 1e-3 if nm == 'bound_mass' else 1e-7), 'halos_sharing_arguments_are_independent', kind=kind, property=nm,
                  got=v, want=alone[i][nm], spec=specs[i])
    ck.case(dict(siblings=kind, k=k))
    ck.expect({q: v for q, v in shared.items()} == dict(s1['args']), 'shared_arguments_are_not_changed', kind=kind, got=shared, want=s1['args'])
    updated(ck, rng, w, specs, kind)


def updated(ck, rng, w, specs, kind):
    """arguments of one halo are updated: that halo is the one made with these arguments, the others keep theirs"""
    new = {q: type(v)(v * rng.uniform(0.7, 0.95)) for q, v in specs[0]['args'].items() if isinstance(v, float) and v > 0} or {'another': 1.0}
    shared = dict(specs[0]['args'])
    hs = [w.make(t, shared) for t in specs]
    j = int(rng.integers(0, len(hs)))
    hs[j].update_args(new)
    args = dict(specs[j]['args'], **new)
    ck.expect(shared == dict(specs[0]['args']), 'updating_arguments_leaves_the_dictionary_of_the_caller', kind=kind, got=shared, want=specs[0]['args'])
    ck.expect(dict(hs[j].args_profile) == args, 'updated_arguments_are_those_of_the_halo', kind=kind, got=hs[j].args_profile, want=args)
    for i in rng.permutation(len(hs)):
        i = int(i)
        ref = w.make(specs[i], dict(args) if i == j else dict(specs[i]['args']))
        rd = readers(ref)
        for q in rng.permutation(len(rd)):
            nm, f = rd[int(q)]
            if nm == 'args':
                continue
            va, vb = read(hs[i], f), read(ref, f)
            ck.expect(same(va, vb, 1e-3 if nm == 'bound_mass' else 1e-7), 'updated_arguments_reach_one_halo', kind=kind, property=nm, updated=i == j, got=va, want=vb, spec=specs[i], new=new)


def stripped(ck, rng, k):
    """subhalos that lost nearly all of their mass, as the tidal models produce them now and then"""
    w = World(rng)
    for j in range(12):
        s = w.spec('TNFW_SUB', rng=rng)
        s['scatter'] = False
        lo = float(rng.uniform(-38, -2))
        s['trunc'], s['tkw'] = 'BOUND_MASS_PDF', dict(log10_fbound_mean=lo, log10_fbound_standard_dev=1e-12)
        a, b = w.make(s), w.make(s)
        lab = dict(log10_bound=lo, mass=s['mass'], z=s['z'], c=float(a.c))
        first = [n for n in ('bound_mass', 'params_physical', 'lenstronomy_params', 'profile_args', 'rescale_norm') if rng.integers(0, 2)]
        rng.shuffle(first)
        for n in first:
            read(a, lambda o, n=n: getattr(o, n))
        m1 = read(b, lambda o: o.bound_mass)
        b.lenstronomy_params
        for m, when in ((read(a, lambda o: o.bound_mass), first), (read(b, lambda o: o.bound_mass), ['bound_mass', 'lenstronomy_params'])):
            ck.expect(same(m, m1, 1e-8), 'bound_mass_does_not_depend_on_what_was_read', got=m, want=m1, order=when, **lab)
        ck.expect(m1[0] == 'f' and 0 < m1[1] < 1e-1 * s['mass'], 'bound_mass_of_a_stripped_halo', got=m1, **lab)
        rt = b.profile_args[1]
        d = b.lenstronomy_params[0][0]
        kpa = w.lc.cosmo.kpc_proper_per_asec(b.z)
        ck.expect(d['r_trunc'] > 0 and d['Rs'] > 0 and d['alpha_Rs'] > 0, 'exported_parameters_of_a_profile_are_positive', got=d, **lab)
        ck.close(d['r_trunc'] * kpa, rt, 'exported_truncation_is_that_of_the_halo', rtol=5e-4 + 1.5e-4 / b.z, atol=2e-10 * kpa, **lab)
        x = b.deflection_angle(np.array([0.01, 0.05, 0.3]))
        ck.expect(bool(np.all(np.isfinite(x))) and bool(np.all(x >= 0)), 'deflection_of_a_stripped_halo_is_finite', got=x, **lab)
        ck.case(dict(lab, first=first, stripped=True))


def body(ck):
    rounds = 40 if THOROUGH else 6
    for k in range(rounds):
        for kind in ALL:
            slow = kind.startswith('ULDM')
            if slow and k % 3:
                continue
            with ck.scenario('histories', k=k, kind=kind):
                seed_global('C08', k, kind)
                histories(ck, rng_for('C08', k, kind), k, kind)
            with ck.scenario('twins', k=k, kind=kind):
                twins(ck, rng_for('C08t', k, kind), k, kind)
        for kind in ('TNFW_FIELD', 'TNFW_SUB', 'NFW_FIELD', 'NFW_SUB', 'CNFW', 'FROM_PARAMS', 'EMULATOR'):
            with ck.scenario('rescale', k=k, kind=kind):
                rescale(ck, rng_for('C08r', k, kind), k, kind)
        with ck.scenario('stripped', k=k):
            stripped(ck, rng_for('C08x', k), k)
        for j in range(2):
            with ck.scenario('conversion', k=k):
                conversion(ck, rng_for('C08c', k, j), k)
            with ck.scenario('siblings', k=k):
                siblings(ck, rng_for('C08s', k, j), k)
        if ck.out_of_time(0.9):
            break


if __name__ == '__main__':
    vf.main('C08', RULE, body)
