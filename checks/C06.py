import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import numpy as np
from collections import Counter
from vf import THOROUGH, rng_for, seed_global
from worlds import World, snapshot, SIMPLE, was_shifted
import C03

RULE = ('random histories of selecting and combining operations on realizations of mixed and rendered objects, mirrored step by '
        'step on a model that holds the objects as plain records; a case is one operation whose result is compared with the model')
NO_BOUND = {'NFW_SUB', 'GNFW_SUB', 'SPL_SUB', 'PJAFFE', 'SIS', 'MASSIVE_GALAXY', 'CNFW', 'HYBRID', 'FROM_PARAMS', 'EMULATOR'}


class RC(object):
    """stands for a rendering class in realizations that are never exported with sheets"""

    def __init__(self, name):
        self.name = name


def same_path(p, q, dmax):
    d = np.linspace(0, 0.98 * dmax, 7)
    return all(np.allclose(np.asarray(a(d), float), np.asarray(b(d), float), atol=1e-9) for a, b in zip(p, q))


class Item(object):
    """one realization and the model of it"""

    def __init__(self, real, recs, sheets, rcs, center, shifted, geo, khm, label):
        self.real, self.recs, self.sheets, self.rcs, self.center, self.shifted = real, recs, sheets, rcs, center, shifted
        self.geo, self.khm, self.label = geo, khm, label

    def like(self, real, recs, label, **kw):
        d = dict(sheets=self.sheets, rcs=self.rcs, center=self.center, shifted=self.shifted)
        d.update(kw)
        return Item(real, recs, geo=self.geo, khm=self.khm, label=label, **d)


def observe(ck, item, dmax, what, order=False, maybe=()):
    """the realization holds exactly the records of the model (maybe: borderline tags that may or may not be there)"""
    r = item.real
    got = [snapshot(h) for h in r.halos]
    gt, wt = Counter(s[7] for s in got), Counter(s[7] for s in item.recs)
    for t in maybe:
        if gt.get(t, 0) == 0:
            wt.pop(t, None)
    missing, extra = wt - gt, gt - wt
    if not ck.expect(not missing and not extra, what + '_keeps_exactly_the_objects', history=item.label, n=len(got), want=len(item.recs),
                     missing=[s for s in item.recs if s[7] in missing][:3], extra=[s for s in got if s[7] in extra][:3]):
        return False
    by = {}
    for s in item.recs:
        by.setdefault(s[7], []).append(s)
    bad = [s for s in got if s not in by[s[7]]]
    ck.expect(not bad, what + '_leaves_objects_unchanged', history=item.label, got=bad[:2], want=[by[s[7]] for s in bad[:2]])
    if order:
        ck.expect(got == [s for s in item.recs if s[7] in gt], what + '_keeps_the_order', history=item.label)
    arr = [('masses', 1), ('x', 2), ('y', 3), ('redshifts', 4)]
    ck.expect(all(len(getattr(r, n)) == len(got) and all(float(a) == s[k] for a, s in zip(getattr(r, n), got)) for n, k in arr)
              and [bool(b) for b in r.subhalo_flags] == [s[6] for s in got] and list(r.mdefs) == [s[8] for s in got]
              and [None if v is None else float(v) for v in r.r3d] == [s[5] for s in got]
              and [float(z) for z in r.unique_redshifts] == sorted(set(s[4] for s in got)),
              'summary_arrays_match_the_objects', history=item.label, operation=what)
    ck.expect([snapshot(h) for h in r.subhalos] == [s for s in got if s[6]]
              and [snapshot(h) for h in r.field_halos] == [s for s in got if not s[6]],
              'subhalos_and_field_halos_partition', history=item.label, operation=what)
    ck.expect(bool(r.apply_mass_sheet_correction) == bool(item.sheets), what + '_keeps_the_mass_sheet_rule', history=item.label)
    ck.expect(len(r.rendering_classes) == len(item.rcs) and all(a is b for a, b in zip(r.rendering_classes, item.rcs)),
              what + '_keeps_the_rendering_classes', history=item.label, got=len(r.rendering_classes), want=len(item.rcs))
    ck.expect(r.geometry is item.geo or (r.geometry is not None and item.geo is not None and r.geometry.cone_opening_angle
                                         == item.geo.cone_opening_angle and getattr(r.geometry, '_zlens', 0) == getattr(item.geo, '_zlens', 0)
                                         and r.geometry.volume_type == item.geo.volume_type),
              what + '_keeps_the_geometry', history=item.label)
    ck.expect(same_path(r.rendering_center, item.center, dmax), what + '_keeps_the_rendering_center', history=item.label)
    ck.expect(was_shifted(r) == item.shifted, what + '_keeps_the_record_of_a_shift', history=item.label)
    item.recs = got
    ck.expect(r.lens_cosmo.z_lens == item.zl and r.lens_cosmo.z_source == item.zs and list(r.kwargs_halo_model) == list(item.khm),
              what + '_keeps_lens_and_halo_model', history=item.label)
    return True


def model_filter(recs, w, ap, radius, logm, paths, units, weighting, wmin):
    keep, maybe = [], []
    chis = w['chi'](w['zs'])
    for s in recs:
        z = s[4]
        d = w['chi'](z)
        ed = (3e-2 if z < 0.025 else 6e-4 / z + 1e-3) if z < 0.3 else 2e-3
        if abs(s[1]) >= 10 ** logm:
            keep.append(s)
            if abs(abs(s[1]) / 10 ** logm - 1) < 1e-9:
                maybe.append(s[7])
            continue
        f = 1.0
        if weighting:
            f = float(np.clip(d * (chis - d) / (chis / 2) ** 2, wmin, 1.0))
        cut = radius * f
        inside, edge = False, False
        for px, py in paths:
            dr = np.hypot(s[2] - float(px(d)), s[3] - float(py(d)))
            e = 2e-3 + 5 * ed * 0.05 + ed * dr
            if units == 'KPC':
                k = d * 1e3 * np.pi / 180 / 3600
                dr, e = dr * k, (e + ed * dr) * k
            e += ed * cut
            inside |= dr <= cut
            edge |= abs(dr - cut) < e
        if inside:
            keep.append(s)
        elif edge:
            keep.append(s)
        if edge:
            maybe.append(s[7])
    return keep, maybe


def history(ck, rng, k):
    from pyHalo.single_realization import Realization, realization_at_z
    w = World(rng)
    chi = w.comoving
    W = dict(chi=chi, zs=w.zs)
    dmax = chi(w.zs)
    label = dict(w.label, k=k)
    bound_ok, near = bool(rng.integers(0, 2)), rng.integers(0, 3) == 0
    kinds = [q for q in SIMPLE if not (bound_ok and q in NO_BOUND)]
    rc_pool = [RC('SUBHALOS'), RC('LINE_OF_SIGHT'), RC('TWO_HALO')]
    khm = {'truncation_model': 1, 'kwargs_density_profile': {}}
    Item.zl, Item.zs = w.zl, w.zs

    def base(n, specs=None):
        if specs is None:
            specs = [w.spec(str(rng.choice(kinds)), rng=rng) for _ in range(n)]
            for q in specs:
                if near and not q['is_sub'] and q['z'] not in (w.planes[0], w.planes[-1]) and rng.integers(0, 2):
                    # placed by hand or by a simulation right next to one of the planes
                    q['z'] += float(rng.choice([-4e-5, 3e-5, 2e-6]))
                if q['kind'] == 'GAUSSIAN' and not bound_ok:
                    # fluctuations around the mean: also underdense ones, also counted as subhalos
                    q['mass'] *= float(np.sign(q['args']['amp']))
                    q['is_sub'] = bool(rng.integers(0, 2))
        sheets = bool(rng.integers(0, 2))
        rcs = [rc_pool[i] for i in rng.permutation(3)[:int(rng.integers(1, 4))]]
        center = w.path(rng, amp=0.3) if rng.integers(0, 2) else None
        halos = [w.make(s) for s in specs]
        if rng.integers(0, 3) == 0:
            [h.lenstronomy_params for h in halos]
        if bound_ok:
            for h in halos:
                if h.is_subhalo:
                    h.bound_mass
        cx, cy = (None, None) if center is None else center
        recs = [snapshot(h) for h in halos]
        r = Realization.from_halos(halos, w.lc, khm, sheets, list(rcs), cx, cy, w.geo)
        zero = (lambda d: np.zeros_like(d), lambda d: np.zeros_like(d))
        it = Item(r, recs, sheets, rcs, center or zero, False, w.geo, khm, ['base%d' % n])
        observe(ck, it, dmax, 'from_halos', order=True)
        return it, specs

    pool = []
    n0 = int(rng.choice([0, 1, 4, 12, 30]))
    first, specs = base(max(n0, 1) if len(pool) == 0 else n0)
    pool.append(first)
    # a second realization that shares some of the objects (same unique tags), one independent and possibly empty one
    pool.append(base(0, [specs[i] for i in rng.permutation(len(specs))[:len(specs) // 2]]
                     + [w.spec(str(rng.choice(kinds)), rng=rng) for _ in range(int(rng.integers(0, 6)))])[0])
    pool.append(base(int(rng.choice([0, 0, 1, 9])))[0])
    steps = 40 if THOROUGH else 22
    for step in range(steps):
        it = pool[int(rng.integers(0, len(pool)))]
        r, before = it.real, list(it.recs)
        op = str(rng.choice(['filter', 'filter', 'filter_subhalos', 'filter_bound', 'split', 'at_z', 'halos_at_z', 'join', 'join',
                             'join_rc', 'counts', 'mass', 'coords', 'eq', 'shift']))
        zany = float(rng.choice([s[4] for s in before])) if before and rng.integers(0, 4) else float(rng.choice(w.planes))
        new = []
        hist = it.label[-6:] + [op]
        if op == 'filter':
            units = str(rng.choice(['ANGLES', 'KPC']))
            radius = float(rng.choice([0.0, 0.3, 1.5, 4.0])) if units == 'ANGLES' else float(rng.choice([0.0, 2.0, 8.0, 40.0]))
            logm = float(rng.choice([0.0, 7.0, 8.0, 9.0, 20.0])) if rng.integers(0, 2) else float(rng.uniform(6, 10))
            if before and rng.integers(0, 6) == 0:
                logm = float(np.log10(abs(before[int(rng.integers(0, len(before)))][1])))
            paths = [w.path(rng, amp=1.0) for _ in range(int(rng.integers(1, 5)))]
            wgt, wmin = bool(rng.integers(0, 2)), float(rng.choice([0.1, 0.5, 0.0, 0.9]))
            kw = dict(aperture_units=units, geometric_weighting=wgt, w_min=wmin)
            if before and rng.integers(0, 2):
                # a radius that only just keeps or drops one of the objects
                o = before[int(rng.integers(0, len(before)))]
                d, cs = chi(o[4]), chi(w.zs)
                f = float(np.clip(d * (cs - d) / (cs / 2) ** 2, wmin, 1.0)) if wgt else 1.0
                dr = min(np.hypot(o[2] - float(px(d)), o[3] - float(py(d))) for px, py in paths)
                radius = (dr if units == 'ANGLES' else dr * d * 1e3 * np.pi / 180 / 3600) / f * float(rng.choice([0.94, 0.98, 1.02, 1.06]))
                logm = max(logm, float(np.log10(abs(o[1]))) + 0.1)
            if units == 'ANGLES' and wgt and wmin == 0.1:
                kw = {}
            recs, maybe = model_filter(before, W, w.ap, radius, logm, paths, units, wgt, wmin)
            nr = r.filter(radius, logm, [p[0] for p in paths], [p[1] for p in paths], **kw)
            hist[-1] = 'filter(%s, r=%g, logm=%.3g, weight=%s, wmin=%g)' % (units, radius, logm, wgt, wmin)
            ni = it.like(nr, recs, hist)
            ck.case(dict(op=hist[-1], k=k, step=step, n=len(before), kept=len(nr.halos)), nontrivial=0 < len(nr.halos) < len(before))
            if observe(ck, ni, dmax, 'filter', maybe=maybe):
                new.append(ni)
            ck.count('filter_borderline_objects', len(maybe))
        elif op == 'filter_subhalos':
            rad, logm = float(rng.choice([0.0, 0.5, 2.0])), float(rng.choice([0.0, 7.5, 9.0, 20.0]))
            n = int(rng.integers(1, 5))
            xs, ys = rng.uniform(-3, 3, n).tolist(), rng.uniform(-3, 3, n).tolist()
            if before and rng.integers(0, 2):
                o = before[int(rng.integers(0, len(before)))]
                if rng.integers(0, 2):
                    logm = float(np.log10(abs(o[1])) + rng.choice([-0.003, 0.003]))
                else:
                    logm, rad = 20.0, min(np.hypot(o[2] - a, o[3] - c) for a, c in zip(xs, ys)) * float(rng.choice([0.99, 1.01]))
            recs = [s for s in before if not s[6] or abs(s[1]) > 10 ** logm
                    or any(np.hypot(s[2] - a, s[3] - c) < rad for a, c in zip(xs, ys))]
            nr = r.filter_subhalos(rad, logm, xs, ys)
            hist[-1] = 'filter_subhalos(r=%g, logm=%g)' % (rad, logm)
            ck.case(dict(op=hist[-1], k=k, step=step, n=len(before), kept=len(nr.halos)), nontrivial=0 < len(nr.halos) < len(before))
            new.append(it.like(nr, recs, hist))
            observe(ck, new[-1], dmax, 'filter_subhalos', order=True)
        elif op == 'filter_bound':
            if not bound_ok:
                continue
            mb = {h.unique_tag: h.bound_mass for h in r.halos if h.is_subhalo}
            cut = float(10 ** rng.uniform(5, 9.5)) if not mb or rng.integers(0, 4) else float(list(mb.values())[0] * rng.choice([0.99, 1.01]))
            recs = [s for s in before if not s[6] or mb[s[7]] >= cut]
            near = [t for t, m in mb.items() if abs(m / cut - 1) < 1e-4]
            nr = r.filter_bound_mass(cut)
            hist[-1] = 'filter_bound_mass(%g)' % cut
            ck.case(dict(op=hist[-1], k=k, step=step, n=len(before), kept=len(nr.halos)), nontrivial=0 < len(nr.halos) < len(before))
            new.append(it.like(nr, recs, hist))
            observe(ck, new[-1], dmax, 'filter_bound_mass', order=True, maybe=near)
        elif op == 'split':
            a, c = r.split_at_z(zany)
            ck.case(dict(op='split', z=zany, k=k, step=step, n=len(before), kept=len(a.halos)), nontrivial=0 < len(a.halos) < len(before))
            hist[-1] = 'split(%g)' % zany
            new += [it.like(a, [s for s in before if s[4] <= zany], hist), it.like(c, [s for s in before if s[4] > zany], hist)]
            for q in new:
                observe(ck, q, dmax, 'split_at_z', order=True)
        elif op in ('at_z', 'halos_at_z'):
            at = [(i, s) for i, s in enumerate(before) if s[4] == zany]
            if op == 'halos_at_z':
                hs, idx = r.halos_at_z(zany)
                ck.case(dict(op=op, z=zany, k=k, step=step, n=len(before), kept=len(hs)), nontrivial=0 < len(hs))
                ck.expect([snapshot(h) for h in hs] == [s for _, s in at] and [int(i) for i in idx] == [i for i, _ in at],
                          'halos_at_z_selects_the_plane', history=hist, z=zany, got=len(hs), want=len(at))
                continue
            rad = None if rng.integers(0, 2) else float(rng.uniform(0.5, 4))
            cx, cy = rng.uniform(-1, 1, 2)
            if rad is not None and at and rng.integers(0, 2):
                rad = float(np.hypot(at[0][1][2] - cx, at[0][1][3] - cy) * rng.choice([0.99, 1.01]))
            if rad is not None:
                at = [(i, s) for i, s in at if np.hypot(s[2] - cx, s[3] - cy) < rad]
            msc = [None, True, False][int(rng.integers(0, 3))]
            kw = {} if msc is None else {'mass_sheet_correction': msc}
            nr, idx = realization_at_z(r, zany, cx, cy, rad, **kw)
            hist[-1] = 'at_z(%g, %s)' % (zany, rad)
            ck.case(dict(op=hist[-1], k=k, step=step, n=len(before), kept=len(nr.halos)), nontrivial=0 < len(nr.halos))
            new.append(it.like(nr, [s for _, s in at], hist, sheets=True if msc is None else msc))
            observe(ck, new[-1], dmax, 'realization_at_z', order=True)
            ck.expect([int(i) for i in idx] == [i for i, _ in at], 'realization_at_z_indexes', history=hist, got=list(idx)[:5])
        elif op in ('join', 'join_rc'):
            ot = pool[int(rng.integers(0, len(pool)))]
            nr = r.join(ot.real) if op == 'join' else r.join(ot.real, join_rendering_classes=True)
            ta, tb = {s[7]: s for s in before}, {s[7]: s for s in ot.recs}
            hist = it.label[-4:] + ['%s with [%s]' % (op, ' > '.join(ot.label[-3:]))]
            ck.case(dict(op=op, k=k, step=step, n=len(before), m=len(ot.recs), both=len(set(ta) & set(tb))),
                    nontrivial=len(set(ta) | set(tb)) > 0)
            # an object that is in both operands (possibly moved in one of them) appears once, in one of the two states
            gotd = {}
            for h in nr.halos:
                gotd.setdefault(h.unique_tag, snapshot(h))
            recs = []
            for t in list(ta) + [t for t in tb if t not in ta]:
                cand = [d[t] for d in (ta, tb) if t in d]
                recs.append(gotd[t] if gotd.get(t) in cand else cand[0])
            rcs = it.rcs if op == 'join' else it.rcs + ot.rcs
            ni = it.like(nr, recs, hist, rcs=rcs, shifted=it.shifted or ot.shifted)
            observe(ck, ni, dmax, 'join')
            new.append(ni)
            ck.expect([snapshot(h) for h in ot.real.halos] == ot.recs, 'join_leaves_the_other_realization_unchanged', history=hist)
        elif op == 'counts':
            got = (r.number_of_halos_before_redshift(zany), r.number_of_halos_at_redshift(zany), r.number_of_halos_after_redshift(zany))
            want = (sum(s[4] < zany for s in before), sum(s[4] == zany for s in before), sum(s[4] > zany for s in before))
            ck.case(dict(op=op, z=zany, k=k, step=step, want=want), nontrivial=len(before) > 0)
            ck.expect(got == want, 'counts_by_redshift', history=hist, z=zany, got=got, want=want)
        elif op == 'mass':
            if zany == w.zl and not bound_ok:
                continue
            hs, _ = r.halos_at_z(zany)
            want = sum(h.bound_mass if (h.is_subhalo and zany == w.zl) else h.mass for h in hs)
            ck.case(dict(op=op, z=zany, k=k, step=step, n=len(hs)), nontrivial=len(hs) > 0)
            ck.close(r.mass_at_z_exact(zany), want, 'mass_at_redshift', rtol=1e-4, atol=1e-9, history=hist, z=zany)
        elif op == 'coords':
            pos = [s for s in before if s[1] > 0]
            if len(pos) != len(before) or not before:
                continue
            xs, ys, lm, zz = r.halo_comoving_coordinates()
            d = np.array([chi(s[4]) for s in before])
            tol = np.array([3.2e-2 if s[4] < 0.025 else 3e-4 / s[4] + 5e-4 for s in before])
            ck.case(dict(op=op, k=k, step=step, n=len(before)))
            ck.expect(np.all(np.abs(xs / (d * np.array([s[2] for s in before])) - 1) < tol)
                      and np.all(np.abs(ys / (d * np.array([s[3] for s in before])) - 1) < tol), 'comoving_coordinates', history=hist)
            ck.expect(np.allclose(lm, np.log10([s[1] for s in before])) and list(zz) == [s[4] for s in before],
                      'comoving_coordinates_mass_and_redshift', history=hist)
        elif op == 'eq':
            ot = pool[int(rng.integers(0, len(pool)))]
            same = sorted(s[7] for s in before) == sorted(s[7] for s in ot.recs)
            ck.case(dict(op=op, k=k, step=step, same=same, n=len(before), m=len(ot.recs)))
            ck.expect(bool(r == ot.real) == same and bool(ot.real == r) == same and bool(r != ot.real) != same and bool(r == r),
                      'equality_means_same_objects', history=hist, same=same)
            if before:
                perm = [r.halos[i] for i in rng.permutation(len(before))]
                q = Realization.from_halos(perm, w.lc, khm, True, None, None, None, w.geo)
                ck.expect(bool(q == r) and bool(r == q), 'equality_ignores_the_order', history=hist)
                q = Realization.from_halos(perm[1:], w.lc, khm, True, None, None, None, w.geo)
                ck.expect(not bool(q == r) and not bool(r == q), 'equality_detects_a_missing_object', history=hist)
        elif op == 'shift':
            if rng.integers(0, 2):
                continue
            px, py = w.path(rng, amp=0.4)
            nr = r.shift_background_to_source(px, py)
            ck.case(dict(op=op, k=k, step=step, n=len(before), again=it.shifted), nontrivial=len(before) > 0)
            recs = []
            ok = len(nr.halos) == len(before)
            ck.expect(ok, 'shift_keeps_every_object', history=hist)
            if not ok:
                continue
            for h, s, o in zip(nr.halos, before, r.halos):
                moved = not it.shifted and not o.fixed_position
                d = chi(s[4])
                want = (s[2] + moved * float(px(d)), s[3] + moved * float(py(d)))
                ck.expect(np.hypot(h.x - want[0], h.y - want[1]) < 4e-3, 'shift_moves_once_along_the_path', history=hist, obj=s,
                          got=(h.x, h.y), want=want)
                n = snapshot(h)
                recs.append((s[0], s[1], n[2], n[3]) + s[4:])
            ni = it.like(nr, recs, hist, shifted=True, center=it.center if it.shifted else (px, py))
            observe(ck, ni, dmax, 'shift', order=True)
            new.append(ni)
        ck.expect([snapshot(h) for h in r.halos] == before, 'operations_leave_the_operand_unchanged', history=hist)
        for q in new:
            if len(pool) < 9:
                pool.append(q)
            else:
                pool[int(rng.integers(1, len(pool)))] = q
    for it in pool:
        if observe(ck, it, dmax, 'later_operations'):
            ck.count('realizations_rechecked_at_the_end')


class Stub:
    fixed_position, r3d, mdef, is_subhalo = False, None, 'NFW', False

    def __init__(self, mass, z, x, y, tag):
        self.mass, self.z, self.x, self.y, self.unique_tag = mass, z, x, y, tag


def aperture(ck, rng, k):
    """light objects from right in front of the observer to right in front of the source, close to the edge of the weighted
    aperture: every combination of units, weighting and smallest weight"""
    from pyHalo.single_realization import Realization
    w = World(rng)
    chi = w.comoving
    cs = chi(w.zs)
    paths = [w.path(rng, amp=1.0) for _ in range(int(rng.integers(1, 4)))]
    n = 160
    for units in ('ANGLES', 'KPC'):
        for wgt, wmin in ((False, 0.1), (True, 0.1), (True, 0.0), (True, float(rng.uniform(0.2, 0.6))), (True, float(rng.uniform(0.6, 1.0)))):
            radius = float(rng.uniform(0.2, 2.5)) if units == 'ANGLES' else float(rng.uniform(1, 20))
            recs = []
            for i in range(n):
                z = float(rng.choice([w.planes[0], w.planes[1], w.planes[-1], w.planes[-2], rng.choice(w.planes)]))
                d = chi(z)
                f = float(np.clip(d * (cs - d) / (cs / 2) ** 2, wmin, 1.0)) if wgt else 1.0
                cut = radius * f / (1 if units == 'ANGLES' else d * 1e3 * np.pi / 180 / 3600)
                px, py = paths[int(rng.integers(0, len(paths)))]
                r, phi = cut * float(rng.choice([0.2, 0.7, 0.93, 1.07, 1.4, 3.0])), rng.uniform(0, 2 * np.pi)
                recs.append((None, float(10 ** rng.uniform(6, 7.9)), float(px(d)) + r * np.cos(phi), float(py(d)) + r * np.sin(phi),
                             z, None, False, i + 0.5))
            real = Realization.from_halos([Stub(s[1], s[4], s[2], s[3], s[7]) for s in recs], w.lc, {}, False, None, geometry=w.geo)
            keep, maybe = model_filter(recs, dict(chi=chi, zs=w.zs), w.ap, radius, 8.0, paths, units, wgt, wmin)
            out = real.filter(radius, 8.0, [p[0] for p in paths], [p[1] for p in paths], aperture_units=units, geometric_weighting=wgt,
                              w_min=wmin)
            got, want, m = set(h.unique_tag for h in out.halos), set(s[7] for s in keep), set(maybe)
            bad = sorted((got ^ want) - m)
            ck.expect(not bad, 'objects_in_the_weighted_aperture', units=units, weighting=wgt, w_min=wmin, radius=radius,
                      wrong=[recs[int(b)][1:5] + (b in got,) for b in bad[:3]], n_wrong=len(bad), borderline=len(m))
            ck.case(dict(k=k, units=units, weighting=wgt, w_min=wmin, radius=radius, kept=len(got), judged=n - len(m)),
                    nontrivial=0 < len(got) < n)


def rendered_history(ck, rng, k):
    """selections of a realization drawn by the code itself (many objects on many planes)"""
    from pyHalo.single_realization import realization_at_z
    render, ap, ph, geo, sh, lab = C03.build(rng, ['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'][:2 + k % 2])[:6]
    seed_global('C06r', k)
    r = render()[0]
    lab = dict(lab, k=k)
    recs = [snapshot(h) for h in r.halos]
    zs = lab['zs']
    chi = lambda z: ap.comoving_distance(z).value
    W = dict(chi=lambda z: cache.setdefault(z, chi(z)), zs=zs)
    cache = {}
    from scipy.interpolate import interp1d
    d = np.linspace(0, chi(zs) * 1.02, 60)
    paths = []
    for _ in range(3):
        x0, v = rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2)
        paths.append((interp1d(d, x0[0] + v[0] * d / d[-1]), interp1d(d, x0[1] + v[1] * d / d[-1])))
    ck.expect(len(set(s[7] for s in recs)) == len(recs), 'rendered_objects_have_unique_tags', n=len(recs), **lab)
    for units, rad in (('ANGLES', 0.7), ('KPC', 4.0)):
        logm = float(rng.uniform(7, 8.5))
        keep, maybe = model_filter(recs, W, ap, rad, logm, paths, units, True, 0.1)
        f = r.filter(rad, logm, [p[0] for p in paths], [p[1] for p in paths], aperture_units=units)
        ck.case(dict(op='filter ' + units, n=len(recs), kept=len(f.halos), **lab), nontrivial=0 < len(f.halos) < len(recs))
        got, want = Counter(snapshot(h) for h in f.halos), Counter(keep)
        bad = [s for s in list((got - want)) + list((want - got)) if s[7] not in maybe]
        ck.expect(not bad, 'filter_keeps_exactly_the_objects', bad=bad[:3], n=len(f.halos), want=len(keep), units=units, logm=logm, **lab)
        j = r.join(f)
        ck.expect(j == r and len(j.halos) == len(recs) and Counter(snapshot(h) for h in j.halos) == Counter(recs),
                  'joining_a_part_gives_the_whole', **lab)
        rest = [h for h in r.halos if h.unique_tag not in set(g.unique_tag for g in f.halos)]
        g = type(r).from_halos(rest, r.lens_cosmo, r.kwargs_halo_model, True, r.rendering_classes, *r.rendering_center, r.geometry)
        ck.expect(g.join(f) == r and f.join(g) == r and (not (g == r) or not f.halos), 'joining_the_parts_gives_the_whole', **lab)
    tot = 0
    for z in r.unique_redshifts:
        q, idx = realization_at_z(r, z)
        tot += len(q.halos)
        ck.expect([snapshot(h) for h in q.halos] == [recs[i] for i in idx] and all(recs[i][4] == z for i in idx),
                  'planes_partition_the_realization', z=z, **lab)
    ck.case(dict(op='planes', n=len(recs), planes=len(r.unique_redshifts), **lab))
    ck.expect(tot == len(recs), 'planes_partition_the_realization', got=tot, want=len(recs), **lab)
    ck.expect([snapshot(h) for h in r.halos] == recs, 'operations_leave_the_operand_unchanged', **lab)


def constructor(ck, rng, k):
    """realizations built from arrays: the objects have the requested type and values"""
    from pyHalo.single_realization import Realization, SingleHalo
    w = World(rng)
    names = {'NFW': ('NFWFieldHalo', 'NFWSubhhalo'), 'TNFW': ('TNFWFieldHalo', 'TNFWSubhalo'),
             'GNFW': ('GeneralNFWFieldHalo', 'GeneralNFWSubhalo'), 'SPL_CORE': ('PowerLawFieldHalo', 'PowerLawSubhalo'),
             'PJAFFE': (None, 'PJaffeSubhalo'), 'PT_MASS': ('BlackHole', 'BlackHole'),
             'ULDM': ('ULDMFieldHalo', 'ULDMSubhalo'), 'GAUSSIAN_KAPPA': ('GaussianHalo', 'GaussianHalo'),
             'TNFWC_SIDM': ('TNFWCHaloEvolving', 'TNFWCHaloEvolving')}
    t1, t2, c1, c2 = (w.truncation('TRUNCATION_R50'), w.truncation('TRUNCATION_ROCHE'), w.concentration('DIEMERJOYCE19'),
                      w.concentration('CONSTANT', c=9.0))
    dens = {'gamma_inner': 1.0, 'gamma_outer': 3.5}
    both = bool(k % 2)
    khm = dict(kwargs_density_profile=dens)
    khm.update(dict(truncation_model=t1, concentration_model=c1) if both else
               dict(truncation_model_subhalos=t2, truncation_model_field_halos=t1, concentration_model_subhalos=c2,
                    concentration_model_field_halos=c1))
    n = 30
    mdefs = [str(m) for m in rng.choice(list(names), n)]
    sub = [names[m][0] is None or bool(rng.integers(0, 2)) for m in mdefs]
    m, x, y = 10 ** rng.uniform(6, 9, n), rng.uniform(-2, 2, n), rng.uniform(-2, 2, n)
    r3, z = rng.uniform(10, 100, n), np.where(sub, w.zl, rng.choice(w.planes, n))
    seed_global('C06c', k)
    r = Realization(m, x, y, r3, mdefs, z, sub, w.lc, None, khm, bool(k % 3), None, None, None, w.geo)
    ck.case(dict(k=k, mdefs=mdefs, both=both))
    ck.expect(len(r.halos) == n, 'arrays_give_one_object_each')
    ck.expect(len(set(h.unique_tag for h in r.halos)) == n, 'rendered_objects_have_unique_tags')
    for i, h in enumerate(r.halos):
        ck.expect(type(h).__name__ == names[mdefs[i]][int(sub[i])], 'mass_definition_selects_the_type', mdef=mdefs[i], sub=sub[i],
                  got=type(h).__name__)
        ck.expect(h.mass == m[i] and h.x == x[i] and h.y == y[i] and h.z == z[i] and h.r3d == r3[i] and h.is_subhalo == sub[i],
                  'arrays_give_the_values_of_the_objects', i=i, mdef=mdefs[i])
        if mdefs[i] in ('TNFW', 'GNFW', 'NFW'):
            ck.close(h.c, 9.0 if (sub[i] and not both) else c1.nfw_concentration(m[i], h.z_infall if sub[i] else z[i]), 'model_of_the_population_is_used',
                     rtol=1e-6, sub=sub[i], mdef=mdefs[i], both=both)
        if mdefs[i] == 'TNFW':
            ref = (t2 if (sub[i] and not both) else t1)
            if ref is t1 and sub[i]:
                continue
            ck.close(h.profile_args[1], ref.truncation_radius_halo(h), 'truncation_of_the_population_is_used', rtol=1e-6, sub=sub[i])
    try:
        Realization([1e8], [0.], [0.], [1.], ['NOT_A_PROFILE'], [0.5], [False], w.lc, None, khm)
        ok = False
    except Exception:
        ok = True
    ck.expect(ok, 'unknown_mass_definition_is_refused')
    s = SingleHalo(3e8, 0.3, -0.4, 'TNFW', w.zl, w.zl, w.zs, r3d=30., subhalo_flag=True, kwargs_halo_model=khm, lens_cosmo=w.lc)
    h = s.halos[0]
    ck.expect(len(s.halos) == 1 and (h.mass, h.x, h.y, h.z, h.is_subhalo, h.r3d) == (3e8, 0.3, -0.4, w.zl, True, 30.)
              and type(h).__name__ == 'TNFWSubhalo' and not s.apply_mass_sheet_correction, 'single_halo_realization')


def body(ck):
    n = 600 if THOROUGH else 60
    for k in range(n):
        with ck.scenario('history', k=k):
            seed_global('C06', k)
            history(ck, rng_for('C06', k), k)
        if ck.out_of_time(0.7):
            break
    for k in range(6 if THOROUGH else 2):
        with ck.scenario('rendered', k=k):
            rendered_history(ck, rng_for('C06r', k), k)
    for k in range(30 if THOROUGH else 6):
        with ck.scenario('aperture', k=k):
            aperture(ck, rng_for('C06a', k), k)
    for k in range(12 if THOROUGH else 4):
        with ck.scenario('constructor', k=k):
            constructor(ck, rng_for('C06c', k), k)


if __name__ == '__main__':
    vf.main('C06', RULE, body)
