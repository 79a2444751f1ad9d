import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import numpy as np
from vf import THOROUGH, rng_for, seed_global
from worlds import World, SIMPLE, ALL, exports, snapshot, was_shifted
import C03

RULE = ('random histories of exporting, selecting, joining, extending and shifting realizations of all object types; a case is one '
        'export or shift judged against a ledger of positions and against freshly built twins of the objects')
P = ['center_x', 'center_y']
NAMES = {'TNFW_FIELD': [('TNFW', ['Rs', 'alpha_Rs', 'r_trunc'])], 'NFW_FIELD': [('NFW', ['Rs', 'alpha_Rs'])],
         'GNFW_FIELD': [('PSEUDO_DPL', ['Rs', 'alpha_Rs', 'gamma_inner', 'gamma_outer'])],
         'SPL_FIELD': [('SPL_CORE', ['gamma', 'r_core', 'sigma0'])], 'PJAFFE': [('PJAFFE', ['Ra', 'Rs', 'sigma0'])],
         'CNFW': [('CNFW', ['Rs', 'alpha_Rs', 'r_core'])], 'TNFWC': [('TNFWC', ['Rs', 'alpha_Rs', 'r_core', 'r_trunc'])],
         'CORE_COLLAPSED': [('CORE_COLLAPSED_HALO', ['Rs_inner', 'Rs_outer', 'alpha_Rs_inner', 'alpha_Rs_outer', 'gamma_inner',
                                                     'gamma_outer', 'r_trunc'])],
         'CORE_COLLAPSED_BH': [('CORE_COLLAPSED_HALO_BH', ['Rs_outer', 'alpha_Rs_outer', 'r_trunc', 'theta_E_inner'])],
         'BH': [('POINT_MASS', ['theta_E'])], 'GAUSSIAN': [('GAUSSIAN', ['amp', 'sigma'])], 'SIS': [('SIS', ['theta_E'])],
         'ULDM_FIELD': [('CNFW', ['Rs', 'alpha_Rs', 'r_core']), ('ULDM', ['kappa_0', 'theta_c'])]}
NAMES['HYBRID'] = NAMES['TNFW_FIELD'] + NAMES['TNFWC']
for a, b in (('TNFW_SUB', 'TNFW_FIELD'), ('NFW_SUB', 'NFW_FIELD'), ('GNFW_SUB', 'GNFW_FIELD'), ('SPL_SUB', 'SPL_FIELD'), ('GC', 'SPL_FIELD'),
             ('TNFWC_EVOLVING', 'TNFWC'), ('MASSIVE_GALAXY', 'GNFW_FIELD'), ('FROM_PARAMS', 'TNFW_FIELD'), ('EMULATOR', 'TNFW_FIELD'),
             ('ULDM_SUB', 'ULDM_FIELD')):
    NAMES[a] = NAMES[b]
FIXED = {'BH', 'GAUSSIAN', 'GC'}


class RC(object):
    def __init__(self, name):
        self.name = name


class Item(object):
    def __init__(self, real, ledger, shifted, hist):
        self.real, self.ledger, self.shifted, self.hist = real, ledger, shifted, hist     # ledger: tag -> (x, y), in any order


def fits(h, ledger, tol=2.5e-3):
    p = ledger.get(h.unique_tag)
    return p is not None and np.hypot(h.x - p[0], h.y - p[1]) < tol


class Twins(object):
    """expected exports of the objects, from objects built anew at the current position"""

    def __init__(self, w, specs):
        self.w, self.specs, self.cache = w, {s['tag']: s for s in specs}, {}

    def get(self, tag, x, y):
        key = (tag, x, y)
        if key not in self.cache:
            s = dict(self.specs[tag], x=x, y=y)
            if s['kind'] == 'GAUSSIAN':
                s['args'] = dict(s['args'], center_x=x, center_y=y)
            self.cache[key] = exports(self.w.make(s))
        return self.cache[key]


def judge_export(ck, item, twins, sheets=False):
    r = item.real
    names, zs, kw, num = r.lensing_quantities(add_mass_sheet_correction=sheets)
    lab = dict(history=item.hist[-6:])
    halos = list(r.halos)
    want_names = [n for h in halos for n, _ in NAMES[twins.specs[h.unique_tag]['kind']]]
    want_z = [h.z for h in halos for _ in NAMES[twins.specs[h.unique_tag]['kind']]]
    ok = ck.expect(list(names) == want_names, 'profile_names_in_order', got=names[:8], want=want_names[:8], n=(len(names), len(want_names)), **lab)
    ok &= ck.expect(len(zs) == len(want_z) and all(float(a) == float(b) for a, b in zip(zs, want_z)), 'redshifts_in_order',
                    n=(len(zs), len(want_z)), **lab)
    ok &= ck.expect(len(kw) == len(names), 'one_parameter_set_per_profile', n=(len(names), len(kw)), **lab)
    if not ok:
        return
    i = 0
    for h in halos:
        s = twins.specs[h.unique_tag]
        pos = item.ledger[h.unique_tag]
        if hasattr(type(h), 'lenstronomy_params_split'):
            for d in h.lenstronomy_params_split[0]:
                ck.expect(abs(d['center_x'] - h.x) < 6e-5 and abs(d['center_y'] - h.y) < 6e-5, 'components_sit_at_the_position_of_the_object',
                          kind=s['kind'], got=(d['center_x'], d['center_y']), want=(h.x, h.y), **lab)
        n_t, kw_t = twins.get(h.unique_tag, float(h.x), float(h.y))
        for j, (nm, keys) in enumerate(NAMES[s['kind']]):
            d = kw[i]
            what = dict(kind=s['kind'], component=j, mass=s['mass'], z=s['z'], **lab)
            if not ck.expect(sorted(d) == sorted(keys + P), 'parameter_names_of_the_profile', got=sorted(d), **what):
                i += 1
                continue
            v = np.array([float(d[q]) for q in keys + P])
            ck.expect(np.all(np.isfinite(v)), 'parameters_are_finite', got=d, **what)
            ck.expect(all(float(d[q]) > 0 for q in keys if q in ('Rs', 'r_trunc')), 'scale_parameters_are_positive', got=d, **what)
            ck.expect(abs(d['center_x'] - h.x) < 6e-5 and abs(d['center_y'] - h.y) < 6e-5, 'exported_position_is_the_position_of_the_object',
                      got=(d['center_x'], d['center_y']), want=(h.x, h.y), **what)
            ck.expect(np.hypot(d['center_x'] - pos[0], d['center_y'] - pos[1]) < 2.7e-3, 'exported_position_follows_the_ledger',
                      got=(d['center_x'], d['center_y']), want=pos, **what)
            for q in keys:
                ck.close(d[q], kw_t[j][q], 'parameters_equal_those_of_a_fresh_twin', rtol=2e-6, atol=1e-9 if q == 'amp' else 1.1e-4 * (q in (
                    'Rs', 'r_trunc', 'r_core', 'alpha_Rs')) * abs(kw_t[j][q] < 1e-2), parameter=q, **what)
            i += 1
    ck.expect(num is None, 'no_numerical_profile', **lab)


def history(ck, rng, k):
    from pyHalo.single_realization import Realization, realization_at_z
    w = World(rng)
    kinds = list(SIMPLE) + (['ULDM_FIELD', 'ULDM_SUB'] if k % 4 == 0 else [])
    n = int(rng.choice([3, 10, 25]))
    specs = []
    for i in range(n):
        s = w.spec(str(rng.choice(kinds)), rng=rng)
        if s['trunc'].startswith('TRUNCATION_GALACTICUS'):
            s['trunc'], s['tkw'] = 'TRUNCATION_ROCHE', {}
        if s['kind'] == 'BH':
            s['free'] = bool(rng.integers(0, 2))
        if s['z'] < 0.03:
            s['z'] = float(w.planes[2])
        specs.append(s)
    twins = Twins(w, specs)
    rcs = [None]

    def base(sub):
        halos = [w.make(s) for s in sub]
        for h in halos:
            if rng.integers(0, 3) == 0:
                h.lenstronomy_params
        c = w.path(rng, amp=0.2) if rng.integers(0, 2) else (None, None)
        r = Realization.from_halos(halos, w.lc, {}, bool(rng.integers(0, 2)), rcs, c[0], c[1], w.geo)
        return Item(r, {s['tag']: (s['x'], s['y']) for s in sub}, False, ['base%d' % len(sub)])

    pool = [base(specs), base([specs[i] for i in rng.permutation(n)[:max(1, n // 2)]])]
    steps = 30 if THOROUGH else 18
    for step in range(steps):
        it = pool[int(rng.integers(0, len(pool)))]
        r = it.real
        before = [snapshot(h) for h in r.halos]
        op = str(rng.choice(['export', 'export', 'shift', 'shift', 'filter', 'split', 'at_z', 'join', 'sheets']))
        hist = it.hist + [op]
        new = []
        if op == 'export':
            it.hist = hist
            ck.case(dict(op=op, k=k, history=it.hist[-6:], n=len(before)), nontrivial=len(before) > 0)
            judge_export(ck, it, twins)
        elif op == 'sheets':
            # no rendering class contributes a sheet: the export is the same
            judge_export(ck, it, twins, sheets=True)
        elif op == 'shift':
            px, py = w.path(rng, amp=0.4)
            zmin = 0 if rng.integers(0, 3) else float(rng.choice(w.planes))
            if rng.integers(0, 3) == 0:
                zmin = w.zl
            kw = {} if zmin == 0 else {'min_shift_redshift': zmin}
            nr = r.shift_background_to_source(px, py, **kw)
            hist[-1] = 'shift(zmin=%g)' % zmin
            led, moved = {}, 0
            for s in before:
                sp = twins.specs[s[7]]
                fixed = sp['kind'] in FIXED and not sp.get('free')
                mv = not it.shifted and not fixed and s[4] >= zmin
                d = w.comoving(s[4])
                led[s[7]] = (s[2] + mv * float(px(d)), s[3] + mv * float(py(d)))
                moved += mv
            ck.case(dict(op=hist[-1], k=k, history=it.hist[-6:], moved=moved, n=len(before), again=it.shifted), nontrivial=moved > 0 or it.shifted)
            ck.expect([h.unique_tag for h in nr.halos] == [s[7] for s in before], 'shift_keeps_every_object', history=hist[-6:])
            for h, s in zip(nr.halos, before):
                ck.expect(fits(h, led, 1.5e-3), 'shift_moves_by_the_path_exactly_once', history=hist[-6:], kind=twins.specs[s[7]]['kind'], z=s[4],
                          start=s[2:4], got=(h.x, h.y), want=led.get(h.unique_tag), zmin=zmin, again=it.shifted)
            d = np.linspace(0, 0.95 * w.comoving(w.zs), 5)
            if not it.shifted:
                ck.expect(np.allclose(nr.rendering_center[0](d), px(d)) and np.allclose(nr.rendering_center[1](d), py(d)),
                          'shift_moves_the_center_of_the_volume', history=hist[-6:])
            new.append(Item(nr, {h.unique_tag: (float(h.x), float(h.y)) for h in nr.halos}, True, hist))
        elif op == 'filter':
            rad, logm = float(rng.choice([0.5, 2.5])), float(rng.uniform(6.5, 9))
            p = w.path(rng, amp=0.5)
            nr = [lambda: r.filter(rad, logm, [p[0]], [p[1]]), lambda: r.filter_subhalos(rad, logm, [0.0], [0.3])][int(rng.integers(0, 2))]()
            new.append(Item(nr, it.ledger, it.shifted, hist))
        elif op == 'split':
            a, b = r.split_at_z(float(rng.choice([w.zl] + w.planes)))
            new += [Item(a, it.ledger, it.shifted, hist), Item(b, it.ledger, it.shifted, hist)]
        elif op == 'at_z':
            z = float(rng.choice([s[4] for s in before])) if before else w.zl
            new.append(Item(realization_at_z(r, z)[0], it.ledger, it.shifted, hist))
        elif op == 'join':
            ot = pool[int(rng.integers(0, len(pool)))]
            nr = r.join(ot.real)
            led = {}
            for h in nr.halos:
                c = [q.ledger[h.unique_tag] for q in (it, ot) if h.unique_tag in set(g.unique_tag for g in q.real.halos)]
                ck.expect(any(np.hypot(h.x - a, h.y - b) < 1e-9 for a, b in c), 'join_keeps_positions', history=hist[-6:])
                led[h.unique_tag] = (float(h.x), float(h.y))
            hist[-1] = 'join(%s)' % '>'.join(ot.hist[-2:])
            new.append(Item(nr, led, it.shifted or ot.shifted, hist))
        ck.expect([snapshot(h) for h in r.halos] == before, 'objects_of_the_original_stay_where_they_are', history=hist[-6:])
        for q in new:
            q.ledger = {h.unique_tag: q.ledger[h.unique_tag] for h in q.real.halos if h.unique_tag in q.ledger}
            if op in ('filter', 'split', 'at_z'):
                sub = [snapshot(h) for h in q.real.halos]
                ck.expect(all(s in before for s in sub), 'selection_keeps_positions', history=hist[-6:])
                # the export of a selection is the sub-list of the export of the whole
                if before and rng.integers(0, 2):
                    nw, zw, kww, _ = r.lensing_quantities(add_mass_sheet_correction=False)
                    ns, zs_, kws, _ = q.real.lensing_quantities(add_mass_sheet_correction=False)
                    seg, i = {}, 0
                    for h in r.halos:
                        m = len(NAMES[twins.specs[h.unique_tag]['kind']])
                        seg[h.unique_tag] = (list(nw[i:i + m]), [float(z) for z in zw[i:i + m]], [dict(x) for x in kww[i:i + m]])
                        i += m
                    i, good = 0, True
                    for h in q.real.halos:
                        a = seg[h.unique_tag]
                        m = len(a[0])
                        good &= list(ns[i:i + m]) == a[0] and [float(z) for z in zs_[i:i + m]] == a[1] and [dict(x) for x in kws[i:i + m]] == a[2]
                        i += m
                    ck.case(dict(op='subset export', k=k, kept=len(q.real.halos), of=len(before)),
                            nontrivial=0 < len(q.real.halos) < len(before))
                    ck.expect(good and i == len(ns), 'export_of_a_selection_is_the_sublist', history=hist[-6:])
            if len(pool) < 8:
                pool.append(q)
            else:
                pool[int(rng.integers(1, len(pool)))] = q
    for it in pool:
        judge_export(ck, it, twins)


def extensions(ck, rng, k):
    """derived realizations (new types, added objects) keep positions and the record of the shift"""
    from pyHalo.single_realization import Realization
    from pyHalo.realization_extensions import RealizationExtensions
    w = World(rng, infall=str(rng.choice(['HYBRID_INFALL', 'DIRECT_INFALL'])))
    specs = []
    for i in range(int(rng.choice([6, 15]))):
        s = w.spec(str(rng.choice(['TNFW_FIELD', 'TNFW_SUB'])), rng=rng, mass=float(10 ** rng.uniform(7, 9.5)))
        s['trunc'], s['tkw'] = 'MULTIPLE_RS', dict(tau=float(rng.uniform(3, 15)))
        s['z'] = max(s['z'], 0.04)
        specs.append(s)
    halos = [w.make(s) for s in specs]
    r = Realization.from_halos(halos, w.lc, {'kwargs_density_profile': {}}, False, [None], None, None, w.geo)
    cur = {h.unique_tag: (float(h.x), float(h.y), h.z, False) for h in halos}   # x, y, z, fixed
    shifted = False
    path0 = w.path(rng, amp=0.4)
    hist = ['base%d' % len(halos)]
    ops = ['SIS', 'GALAXY', 'CC_GNFW', 'CC_SPL', 'CC_TNFWC', 'CC_COMPOSITE', 'GC', 'BH', 'CNFW', 'SIDM_LIST', 'TIMESCALE', 'shift', 'shift', 'shift', 'filter']
    for step in range(9 if THOROUGH else 7):
        op = str(rng.choice(ops))
        all_tnfw = all(h.mdef == 'TNFW' for h in r.halos)
        idx = [i for i, h in enumerate(r.halos) if h.mdef == 'TNFW' and rng.integers(0, 2)]
        before = [snapshot(h) for h in r.halos]
        ext = RealizationExtensions(r)
        seed_global('C07x', k, step)
        moved = False
        if op == 'shift':
            nr = r.shift_background_to_source(*path0)
            moved = not shifted
        elif op in ('SIS', 'GALAXY'):
            if not all_tnfw:
                continue
            nr = ext.SIS_injection(float(10 ** rng.uniform(7.5, 9)), 'SIS' if op == 'SIS' else 'GNFW')
        elif op.startswith('CC_'):
            kw = {'CC_GNFW': dict(gamma_inner=2.0, gamma_outer=3.8), 'CC_SPL': dict(log_slope_halo=3.0, x_core_halo=0.05),
                  'CC_TNFWC': dict(x_core_halo=0.06), 'CC_COMPOSITE': dict(gamma_inner=2.6, scale_match_r=1.2, log_slope_match=-1.9)}[op]
            nr = ext.add_core_collapsed_halos(idx, {'CC_GNFW': 'GNFW', 'CC_SPL': 'SPL_CORE', 'CC_TNFWC': 'TNFWC', 'CC_COMPOSITE': 'CC_COMPOSITE'}[op], **kw)
        elif op == 'GC':
            nr = ext.add_globular_clusters(5.0, 0.4, 0.2, center_x=0.5, center_y=-0.3, gc_density_profile=str(rng.choice(['SPL_CORE', 'PTMASS'])))
        elif op == 'BH':
            if not all_tnfw or not r.halos:
                continue
            bh = ext.add_black_holes(-2.0, 0.7, log10_min_mbh=5.0, log10_mlow_halos_subres=5.9)
            ck.expect(was_shifted(bh) == shifted, 'added_objects_carry_the_record_of_a_shift', history=hist)
            nr = r.join(bh)
        elif op == 'CNFW':
            if not all_tnfw:
                continue
            nr = ext.add_cored_halos(idx, 0.3)
        elif op == 'SIDM_LIST':
            if not all_tnfw:
                continue
            nr = ext.toSIDM_halo_list(r.halos, None, 1.0, 0.1, evolving_profile=False)
        elif op == 'TIMESCALE':
            if not all_tnfw:
                continue
            nr = ext.toSIDM_from_timescale([[6, 10.5]], [float(rng.uniform(0, 2))], [0.3], 0.2)
        else:
            nr = r.filter(2.0, 8.0, [path0[0]], [path0[1]])
        hist.append(op)
        ck.case(dict(op=op, k=k, history=hist[-6:], n=len(before), after=len(nr.halos), moved=moved), nontrivial=len(before) > 0)
        ck.expect([snapshot(h) for h in r.halos] == before, 'objects_of_the_original_stay_where_they_are', history=hist)
        if moved:
            for t, (x, y, z, fx) in list(cur.items()):
                if not fx:
                    d = w.comoving(z)
                    cur[t] = (x + float(path0[0](d)), y + float(path0[1](d)), z, fx)
        shifted = shifted or op == 'shift'
        ck.expect(was_shifted(nr) == shifted, 'derived_realizations_keep_the_record_of_a_shift', history=hist, operation=op)
        tags = set(s[7] for s in before)
        if op not in ('filter',):
            ck.expect(tags <= set(h.unique_tag for h in nr.halos), 'derived_realizations_keep_the_objects', history=hist)
        for h in nr.halos:
            if h.unique_tag in tags:
                c = cur[h.unique_tag]
                ck.expect(np.hypot(h.x - c[0], h.y - c[1]) < 1.5e-3 and h.z == c[2], 'positions_in_derived_realizations', history=hist, operation=op,
                          type=type(h).__name__, got=(h.x, h.y, h.z), want=c)
            fixed = h.mdef == 'PT_MASS' and 'GC' in hist and bool(h.fixed_position) or type(h).__name__ == 'GlobularCluster'
            cur[h.unique_tag] = (float(h.x), float(h.y), h.z, fixed)
        # exported centres follow
        names, zs, kw, _ = nr.lensing_quantities(add_mass_sheet_correction=False)
        i = 0
        good, finite = len(names) == len(kw) == len(zs), True
        if good:
            for h in nr.halos:
                for j in range(len(h.lenstronomy_ID)):
                    good &= abs(kw[i]['center_x'] - h.x) < 6e-5 and abs(kw[i]['center_y'] - h.y) < 6e-5 and float(zs[i]) == h.z
                    finite &= bool(np.all(np.isfinite([float(v) for v in kw[i].values()])))
                    i += 1
        ck.expect(good and i == len(names), 'exported_position_is_the_position_of_the_object', history=hist)
        ck.expect(finite, 'parameters_are_finite', history=hist)
        r = nr


def pinned(ck, rng, k):
    """objects created in the place of a halo that does not take part in a shift stay where they are too; planes in front of the
    smallest redshift of the shift stay"""
    from pyHalo.single_realization import Realization
    from pyHalo.realization_extensions import RealizationExtensions
    w = World(rng, infall='HYBRID_INFALL')
    halos = []
    for i in range(16):
        s = w.spec(str(rng.choice(['TNFW_FIELD', 'TNFW_SUB'])), rng=rng, mass=float(10 ** rng.uniform(7, 9.5)))
        s['trunc'], s['tkw'] = 'MULTIPLE_RS', dict(tau=6.0)
        h = w.make(s)
        h.fixed_position = bool(rng.integers(0, 2))
        halos.append(h)
    pin = {h.unique_tag: h.fixed_position for h in halos}
    r = Realization.from_halos(halos, w.lc, {'kwargs_density_profile': {}}, False, [None], None, None, w.geo)
    kind, cut = ('SIS', 'GNFW')[k % 2], float(10 ** rng.uniform(7.5, 9))
    if k % 4 != 3:
        r = RealizationExtensions(r).SIS_injection(cut, kind)
    made = sum(h.mdef != 'TNFW' for h in r.halos)
    path, zmin = w.path(rng, amp=0.4), [0, 0, 0.4][int(rng.integers(0, 3))]
    before = {h.unique_tag: (float(h.x), float(h.y)) for h in r.halos}
    out = r.shift_background_to_source(*path, **({} if zmin == 0 else dict(min_shift_redshift=zmin)))
    for h in out.halos:
        x, y = before[h.unique_tag]
        if not pin[h.unique_tag] and h.z >= zmin:
            d = w.comoving(h.z)
            x, y = x + float(path[0](d)), y + float(path[1](d))
        ck.expect(np.hypot(h.x - x, h.y - y) < 1.5e-3, 'only_objects_that_are_free_to_move_are_shifted', type=type(h).__name__, pinned=pin[h.unique_tag],
                  z=h.z, zmin=zmin, got=(h.x, h.y), want=(x, y), k=k)
    ck.case(dict(pinned=k, kind=kind, made=made, zmin=zmin), nontrivial=made > 0)


def rendered(ck, rng, k):
    """rendered realizations: halos first, then the sheets, whose centres follow the light path"""
    pops = ['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO']
    render, ap, ph, geo, sh, lab = C03.build(rng, pops)[:6]
    seed_global('C07r', k)
    r = render()[0]
    from scipy.interpolate import interp1d
    zl, zs = lab['zl'], lab['zs']
    dmax = ap.comoving_distance(zs).value
    d = np.linspace(0, dmax * 1.02, 60)
    dl = ap.comoving_distance(zl).value
    v = rng.uniform(-0.8, 0.8, 4)
    f = rng.uniform(-0.4, 0.4, 2)
    px = interp1d(d, v[0] + v[2] * np.where(d > dl, (d - dl) / dmax, 0) + f[0] * np.sin(2 * d / dl))
    py = interp1d(d, v[1] + v[3] * np.where(d > dl, (d - dl) / dmax, 0) + f[1] * np.sin(2 * d / dl))
    n0, z0, kw0, _ = r.lensing_quantities()
    zmin = 0 if k % 2 else zl
    q = r.shift_background_to_source(px, py, min_shift_redshift=zmin)
    n1, z1, kw1, _ = q.lensing_quantities()
    n2, z2, kw2, _ = q.shift_background_to_source(px, py).lensing_quantities()
    n3, z3, kw3, _ = r.lensing_quantities()
    ck.case(dict(rendered=lab, k=k, n=len(n0)), nontrivial='CONVERGENCE' in n0)
    ck.expect(list(n0) == list(n1) == list(n2) == list(n3) and np.array_equal(z0, z1) and np.array_equal(z0, z2) and np.array_equal(z0, z3)
              and len(n0) == len(z0) == len(kw0) == len(kw1), 'shift_changes_only_positions', lab=lab)
    ck.expect(kw0 == kw3, 'export_of_the_original_is_unchanged', lab=lab)
    ck.expect(kw1 == kw2, 'second_shift_changes_nothing', lab=lab)
    ds = {z: ap.comoving_distance(z).value for z in set(float(a) for a in z0)}
    bad = None
    for a, z, p, s in zip(n0, z0, kw0, kw1):
        z = float(z)
        dx, dy = float(px(ds[z])), float(py(ds[z]))
        tol = 1.5e-3 if z > 0.03 else 6e-3
        if a == 'CONVERGENCE':
            ok = abs(p['ra_0']) < 1e-9 and abs(s['ra_0'] - dx) < tol and abs(s['dec_0'] - dy) < tol and p['kappa'] == s['kappa']
        else:
            mv = z >= zmin
            ok = abs(s['center_x'] - p['center_x'] - mv * dx) < tol and abs(s['center_y'] - p['center_y'] - mv * dy) < tol and \
                all(s[u] == p[u] for u in p if u not in P)
        ck.count('exported_profiles_follow_the_path')
        if not ok:
            bad = (a, z, p, s, dx, dy)
    if bad:
        ck.fail('exported_profiles_follow_the_path', lab=lab, example=bad, zmin=zmin)
    # and so do the sheets of every part of the shifted realization
    from pyHalo.single_realization import realization_at_z
    some = sorted(set(float(z) for z in q.redshifts))
    parts = list(q.split_at_z(float(rng.choice(some)))) + [q.filter(1.0, 8.0, [px], [py]), q.filter_subhalos(0.5, 8.5, [0.3], [0.1]),
                                                           realization_at_z(q, float(rng.choice(some)))[0], q.join(r), q.split_at_z(zl)[1].filter(
                                                               2.0, 7.0, [px], [py])]
    seen = 0
    for i, part in enumerate(parts):
        for a, z, s in list(zip(*part.lensing_quantities()[:3])):
            if a == 'CONVERGENCE':
                z = float(z)
                d = ds.setdefault(z, ap.comoving_distance(z).value)
                tol = 1.5e-3 if z > 0.03 else 6e-3
                seen += 1
                ck.expect(abs(s['ra_0'] - float(px(d))) < tol and abs(s['dec_0'] - float(py(d))) < tol, 'sheets_of_a_part_follow_the_path',
                          part=i, z=z, got=(s['ra_0'], s['dec_0']), want=(float(px(d)), float(py(d))), lab=lab)
    ck.case(dict(rendered='parts', k=k, sheets=seen), nontrivial=seen > 0)


def each_extension(ck, rng, k):
    """every way to derive a realization, once from a shifted one and once from one that is shifted afterwards: the objects that were there
    are moved along the path once"""
    from pyHalo.single_realization import Realization
    from pyHalo.realization_extensions import RealizationExtensions
    w = World(rng, infall='HYBRID_INFALL')
    halos = []
    for i in range(8):
        s = w.spec(('TNFW_FIELD', 'TNFW_SUB')[i % 2], rng=rng, mass=float(10 ** rng.uniform(7, 9.5)))
        s['trunc'], s['tkw'], s['z'] = 'MULTIPLE_RS', dict(tau=6.0), max(s['z'], 0.04)
        halos.append(w.make(s))
    path = w.path(rng, amp=0.4)
    base = Realization.from_halos(halos, w.lc, {'kwargs_density_profile': {}}, False, [None], None, None, w.geo)
    home = {h.unique_tag: (float(h.x), float(h.y), h.z) for h in halos}
    zero = [lambda d: 0.0 * np.asarray(d)]
    bins = [[6, 8], [8, 10.5]]
    ways = {
        'galaxies': lambda r, e: e.SIS_injection(1e8, 'GNFW'), 'isothermal': lambda r, e: e.SIS_injection(1e8, 'SIS'),
        'black_holes': lambda r, e: e.add_black_holes(-2.0, 0.9, log10_min_mbh=5.0, log10_mlow_halos_subres=5.9),
        'black_holes_joined': lambda r, e: e.add_black_holes(-2.0, 0.9, log10_min_mbh=5.0, log10_mlow_halos_subres=5.9).join(r),
        'globular_clusters': lambda r, e: e.add_globular_clusters(5.0, 0.4, 0.2, center_x=0.5, center_y=-0.3),
        'cored': lambda r, e: e.add_cored_halos([0, 3, 6], 0.3), 'sidm_list': lambda r, e: e.toSIDM_halo_list(r.halos, None, 1.0, 0.1, evolving_profile=False),
        'timescale': lambda r, e: e.toSIDM_from_timescale(bins, [1.0, 0.5], [0.3, 0.2], 0.2),
        'cross_section': lambda r, e: e.toSIDM_from_cross_section(bins, [2.0, 1.0], 0.2),
        'collapsed': lambda r, e: e.add_core_collapsed_halos([1, 4], 'SPL_CORE', log_slope_halo=3.0, x_core_halo=0.05),
        'fluctuations': lambda r, e: e.add_ULDM_fluctuations(0.3, 0.02, 0.05, 0.01, 20, 0.5, 'aperture', dict(x_images=[0.5], y_images=[0.2], aperture=0.3)),
        'primordial': lambda r, e: e.add_primordial_black_holes(1e-3, 5.5, 0.5, [zero[0]], [zero[0]], [0.3], arcsec_per_pixel=0.02),
        'bound_mass': lambda r, e: r.filter_bound_mass(1e5), 'filter_subhalos': lambda r, e: r.filter_subhalos(2.0, 8.0, [0.0], [0.0]),
    }
    for name in [str(x) for x in rng.permutation(sorted(ways))]:
        for first in (True, False):
            seed_global('C07e', k, sorted(ways).index(name), int(first))
            r = base.shift_background_to_source(*path) if first else base
            nr = ways[name](r, RealizationExtensions(r))
            ck.expect(was_shifted(nr) == first, 'derived_realizations_keep_the_record_of_a_shift', operation=name, shifted_before=first)
            d = float(w.comoving(float(rng.uniform(0.05, w.zs - 0.05))))
            c = [float(f(d)) for f in nr.rendering_center]
            ck.expect(np.allclose(c, [float(path[0](d)), float(path[1](d))] if first else [0.0, 0.0], rtol=0, atol=1e-9), 'centre_of_derived_realizations',
                      operation=name, shifted_before=first, got=c, at=d)
            kept = lambda q: (q.geometry.cone_opening_angle, float(q.geometry.rendering_scale(0.3)), q.lens_cosmo.z_lens, q.lens_cosmo.z_source, q.lens_cosmo.cosmo.astropy.H0.value,
                              q.lens_cosmo.cosmo.astropy.Om0, q.apply_mass_sheet_correction, [type(c).__name__ for c in q.rendering_classes])
            ck.expect(kept(nr) == kept(r), 'settings_of_derived_realizations', operation=name)
            added = {h.unique_tag: (float(h.x), float(h.y)) for h in nr.halos if h.unique_tag not in home}
            out = nr.shift_background_to_source(*path)
            ck.case(dict(derived=name, first=first, k=k, n=len(nr.halos), added=len(added)))
            for h in out.halos:
                if h.unique_tag in home:
                    x, y, z = home[h.unique_tag]
                    d = w.comoving(z)
                    want = x + float(path[0](d)), y + float(path[1](d))
                    ck.expect(np.hypot(h.x - want[0], h.y - want[1]) < 1.5e-3, 'every_object_is_moved_once', operation=name, shifted_before=first,
                              type=type(h).__name__, got=(h.x, h.y), want=want)
                elif first:
                    x, y = added[h.unique_tag]
                    ck.expect(h.x == x and h.y == y, 'added_objects_are_not_moved_again', operation=name, type=type(h).__name__)
            ck.expect(out.shift_background_to_source(*path).halos == out.halos, 'a_second_shift_changes_nothing', operation=name)


def body(ck):
    for k in range(1200 if THOROUGH else 50):
        with ck.scenario('history', k=k):
            seed_global('C07', k)
            history(ck, rng_for('C07', k), k)
        if ck.out_of_time(0.6):
            break
    for k in range(900 if THOROUGH else 30):
        with ck.scenario('extensions', k=k):
            extensions(ck, rng_for('C07x', k), k)
        if ck.out_of_time(0.85):
            break
    for k in range(200 if THOROUGH else 12):
        with ck.scenario('pinned', k=k):
            seed_global('C07p', k)
            pinned(ck, rng_for('C07p', k), k)
    for k in range(60 if THOROUGH else 3):
        with ck.scenario('each_extension', k=k):
            each_extension(ck, rng_for('C07e', k), k)
    for k in range(30 if THOROUGH else 3):
        with ck.scenario('rendered', k=k):
            rendered(ck, rng_for('C07r', k), k)


if __name__ == '__main__':
    vf.main('C07', RULE, body)
