import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from scipy import stats
from vf import THOROUGH, rng_for, seed_global
from worlds import World, exports, snapshot
from oracles import log_integral, recorded_means
import refs

RULE = ('realizations of mixed halos to which primordial black holes, black holes in halos, globular clusters or Gaussian fluctuations are '
        'added; a case is one call with its settings (budget, masses, places of the added objects and the ledger of what was there)')
KINDS = ['TNFW_SUB', 'TNFW_FIELD', 'TNFW_FIELD', 'NFW_FIELD', 'TNFWC', 'GNFW_FIELD']
HUBBLE_KM = 3.0856776e19
G_KPC = 4.30091e-6


class Pool(object):
    """pooled statistics of the added objects"""

    def __init__(self):
        self.poisson, self.uniform = {}, {}

    def count(self, name, n, mean, slack=0.03):
        self.poisson.setdefault((name, slack), []).append((n, mean))

    def u(self, name, values):
        self.uniform.setdefault(name, []).extend(np.atleast_1d(values).tolist())

    def judge(self, ck):
        for (name, slack), v in sorted(self.poisson.items()):
            n, mean = int(sum(a for a, _ in v)), float(sum(b for _, b in v))
            p = tail(n, mean, slack)
            ck.expect(p > 1e-8, 'count:' + name, n=n, expected=mean, pvalue=p, systems=len(v))
            ck.note('counted_%s_%g' % (name, slack), [n, round(mean, 2)])
        for name, v in sorted(self.uniform.items()):
            v = np.asarray(v)
            if len(v) < 40:
                continue
            d = float(stats.kstest(v, 'uniform').statistic)
            ck.expect(d < 0.004 + 2.95 / np.sqrt(len(v)), 'distribution:' + name, ks=d, n=len(v), mean=float(v.mean()))
            ck.note('distribution_' + name, [len(v), round(d, 5)])


def tail(n, mean, slack):
    lo, hi = mean * (1 - slack), mean * (1 + slack)
    if n > hi:
        return float(stats.poisson.sf(n - 1, hi))
    if n < lo:
        return float(stats.poisson.cdf(n, lo))
    return 1.0


def zt(z):
    return 3e-2 if z < 0.02 else 3e-4 / z


class Ledger(object):
    """what was in a realization before something is added"""

    def __init__(self, real):
        self.real = real
        self.by = {h.unique_tag: (snapshot(h), exports(h), float(h.rescale_norm)) for h in real.halos}
        self.n = len(real.halos)

    def untouched(self, ck, **lab):
        for h in self.real.halos:
            s, e, r = self.by[h.unique_tag]
            ck.expect(snapshot(h) == s and exports(h) == e and h.rescale_norm == r, 'the_realization_extended_is_not_modified', before=s,
                      after=snapshot(h), **lab)
        ck.expect(len(self.real.halos) == self.n, 'the_realization_extended_is_not_modified', **lab)

    def kept(self, ck, new, rescaled={}, **lab):
        """every object is still there once (rescaled: tag -> factor); returns the added objects"""
        seen, added = {}, []
        for h in new.halos:
            if h.unique_tag in self.by:
                seen[h.unique_tag] = seen.get(h.unique_tag, 0) + 1
                s, e, r = self.by[h.unique_tag]
                ck.expect(snapshot(h) == s, 'earlier_objects_are_kept', before=s, after=snapshot(h), **lab)
                f = rescaled.get(h.unique_tag, 1.0)
                h.lenstronomy_params
                ck.close(h.rescale_norm, r * f, 'normalization_of_earlier_objects', rtol=1e-9, near=f != 1.0, kind=s[0], **lab)
                if f == 1.0:
                    ck.expect(exports(h) == e, 'earlier_objects_are_kept', before=e, after=exports(h), **lab)
                elif s[0] in ('TNFWFieldHalo', 'TNFWSubhalo', 'NFWFieldHalo'):
                    ck.close(exports(h)[1][0]['alpha_Rs'], e[1][0]['alpha_Rs'] * f, 'normalization_of_earlier_objects', rtol=1e-6,
                             atol=3e-10, kind=s[0], **lab)
            else:
                added.append(h)
        ck.expect(set(seen) == set(self.by) and all(v == 1 for v in seen.values()), 'earlier_objects_are_kept', before=self.n, got=len(seen),
                  more_than_once=[k for k, v in seen.items() if v > 1][:3], **lab)
        ck.expect(len(set(h.unique_tag for h in added)) == len(added), 'added_objects_are_distinct', **lab)
        return added


def build(rng, n, near=None, radius=None, kinds=KINDS, center=None):
    w = World(rng)
    specs = []
    for _ in range(n):
        s = w.spec(str(rng.choice(kinds)), rng=rng)
        if near is not None and rng.integers(0, 3):
            i = int(rng.integers(0, len(near[0])))
            d = w.comoving(s['z'])
            r, phi = radius[i] * (1.2 if rng.integers(0, 4) == 0 else 0.85) * np.sqrt(rng.random()), rng.uniform(0, 2 * np.pi)
            s['x'], s['y'] = float(near[0][i](d) + r * np.cos(phi)), float(near[1][i](d) + r * np.sin(phi))
        specs.append(s)
    return w, specs


# -- primordial black holes -------------------------------------------------------------------------------------------------------
def image_paths(rng, w, n):
    """paths of well separated images, deflected at the lens"""
    from scipy.interpolate import interp1d
    ds, dl = w.ap.comoving_distance(w.zs).value, w.ap.comoving_distance(w.zl).value
    d = np.linspace(0, ds * 1.02, 400)
    phi0, xs, ys = rng.uniform(0, 2 * np.pi), [], []
    bx, by = rng.uniform(-0.15, 0.15, 2)
    for i in range(n):
        phi, r = phi0 + 2 * np.pi * i / n, rng.uniform(0.9, 1.2)
        x0, y0 = r * np.cos(phi), r * np.sin(phi)
        k = np.where(d > dl, ds * (d - dl) / (np.maximum(d, 1) * (ds - dl)), 0.0)
        xs.append(interp1d(d, x0 + (bx - x0) * k))
        ys.append(interp1d(d, y0 + (by - y0) * k))
    return xs, ys


def aperture(w, real, halos, x, y, z, radius, pixel, fine):
    """convergence of the given halos in a circle: (mass, fraction of the mass close to the heaviest halo, its place and that radius)"""
    from lenstronomy.LensModel.lens_model import LensModel
    n = max(20, int(2 * radius / pixel)) * fine
    t = np.linspace(-radius, radius, n)
    xx, yy = np.meshgrid(t, t)
    ins = xx ** 2 + yy ** 2 <= radius ** 2
    px, py = xx[ins] + x, yy[ins] + y
    names, kw = [], []
    for h in halos:
        a, b = exports(h)
        names += a
        kw += b
    kap = np.nan_to_num(LensModel(names).kappa(px, py, kw))
    m = float(np.mean(kap)) * np.pi * radius ** 2 * refs.scrit(w.ap, z, w.zs) * (1e-3 * refs.kpa(w.ap, z)) ** 2
    big = max(halos, key=lambda h: h.mass)
    rin = 0.3 * radius
    c = np.hypot(px - big.x, py - big.y) < rin
    return m, float(kap[c].sum() / kap.sum()), (big.x, big.y, rin)


def pbh(ck, rng, pool, k):
    from pyHalo.realization_extensions import RealizationExtensions
    w = World(rng)
    coarse = k % 6 == 2
    nimg = int(rng.integers(1, 5)) if not coarse else 1
    paths = image_paths(rng, w, nimg)
    rmax = [float(r) for r in (rng.uniform(0.08, 0.3, nimg) if not coarse else rng.uniform(0.1, 0.25, nimg))]
    # halos: many close to the images
    specs = []
    for _ in range(int(rng.integers(4, 16))):
        s = w.spec(str(rng.choice(['TNFW_SUB', 'TNFW_FIELD', 'TNFW_FIELD', 'NFW_FIELD'])), rng=rng, mass=float(10 ** rng.uniform(6.5, 9)))
        if s['z'] < 0.05 or s['z'] > 0.97 * w.zs:
            s['z'] = w.zl
        if rng.integers(0, 4):
            i = int(rng.integers(0, nimg))
            d = w.comoving(s['z'])
            r, phi = rmax[i] * (1.3 if rng.integers(0, 4) == 0 else 0.8) * np.sqrt(rng.random()), rng.uniform(0, 2 * np.pi)
            s['x'], s['y'] = float(paths[0][i](d) + r * np.cos(phi)), float(paths[1][i](d) + r * np.sin(phi))
        specs.append(s)
    real = w.realization(specs, sheets=bool(rng.integers(0, 2)), rendering_classes=[])
    led = Ledger(real)
    f = float(10 ** rng.uniform(-1.6, 0) if rng.integers(0, 5) else 0.0)
    fh = float(rng.choice([0.0, 1.0, rng.uniform(0.1, 0.9)]))
    logm = float(rng.uniform(3.5, 5.5))
    mfunc = str(rng.choice(['DELTA', 'GAUSSIAN']))
    sig = float(rng.uniform(0.05, 0.8))
    if k % 5 == 0 and f:
        fh, mfunc, sig = 1.0, 'GAUSSIAN', max(sig, 0.4)
    rescale = bool(rng.integers(0, 3))
    pix = float(rng.choice([0.005, 0.01]))
    if coarse:
        pix, fh, f = 0.05, 1.0, max(f, 0.1)
    # which halos contribute where
    zz = sorted(set(h.z for h in real.halos))
    dz = [b - a for a, b in zip(zz[:-1], zz[1:])] + [w.zs - zz[-1]]
    near, exp_c, region = {}, 0.0, []
    mean_m = 10 ** logm if mfunc == 'DELTA' else 10 ** (logm + sig ** 2 * np.log(10) / 2)
    rho = (w.Om0 - 0.049) * w.ap.critical_density0.to('Msun/Mpc3').value
    per_plane = {}
    for i in range(nimg):
        sh = refs.Shape(w.ap, w.zl, w.zs, 2 * rmax[i])
        for z, d_z in zip(zz, dz):
            px, py = float(paths[0][i](w.comoving(z))), float(paths[1][i](w.comoving(z)))
            hs = [h for h in real.halos if h.z == z and np.hypot(h.x - px, h.y - py) < rmax[i] - 1e-3]
            edge = [h for h in real.halos if h.z == z and abs(np.hypot(h.x - px, h.y - py) - rmax[i]) <= 2e-3 + 2 * zt(z)]
            smooth = f * (1 - fh) * rho * sh.volume(z, d_z) / mean_m
            clump, frac, where = 0.0, None, None
            if hs:
                m, frac, where = aperture(w, real, hs, px, py, z, rmax[i], pix, 1 if coarse else 2)
                clump = f * fh * m / mean_m
            for h in edge:
                near[h.unique_tag] = None
            for h in hs:
                near.setdefault(h.unique_tag, 1 - f * fh)
            per_plane[(i, z)] = dict(px=px, py=py, smooth=smooth, clump=clump, frac=frac, where=where, edge=bool(edge), r_s=rmax[i] * sh.scale(z), r_c=rmax[i])
    total = sum(v['smooth'] + v['clump'] for v in per_plane.values())
    if total > 3000 or 0 < total < 500:          # keep the number of objects in hand
        logm += np.log10(total / 1500)
        for v in per_plane.values():
            v['smooth'] *= 1500 / total
            v['clump'] *= 1500 / total
    lab = dict(k=k, f=f, in_halos=fh, logm=logm, mfunc=mfunc, images=nimg, rmax=rmax, rescale=rescale, zl=w.zl, zs=w.zs, halos=len(specs))
    kw = {} if mfunc == 'DELTA' else dict(logM_pbh_sigma=sig)
    with recorded_means() as means:
        new = RealizationExtensions(real).add_primordial_black_holes(f, logm, fh, paths[0], paths[1], np.array(rmax) if rng.integers(0, 2) else rmax,
                                                                    arcsec_per_pixel=pix, rescale_normalizations=rescale, mass_function_type=mfunc, **kw)
    if means and f > 0 and not any(v['edge'] for v in per_plane.values()):
        want = [sum(v[q] for v in per_plane.values()) for q in ('smooth', 'clump')]
        ck.close(sum(means), sum(want), 'expected_number_of_primordial_black_holes', rtol=4e-3 + (0.012 * want[1] / sum(want)) + (0.03 if w.zs - zz[-1] < 0.1 or zz[0] < 0.1 else 0),
                 pixel=pix, rmax=rmax, **{q: lab[q] for q in lab if q != 'rmax'})
    ck.case(dict(op='pbh', **lab), f > 0)
    led.untouched(ck, op='pbh', **lab)
    factor = {t: 1 - f * fh for t, v in near.items() if v is not None} if rescale else {}
    skip = {t for t, v in near.items() if v is None}
    for t in skip:       # at the edge of an aperture: either
        hit = [h for h in new.halos if h.unique_tag == t]
        if hit and rescale and abs(hit[0].rescale_norm / led.by[t][2] - 1) > 1e-6:
            factor[t] = 1 - f * fh
    add = led.kept(ck, new, factor, op='pbh', **lab)
    got = {key: [] for key in per_plane}
    for h in add:
        ck.expect(h.mdef == 'PT_MASS' and not h.is_subhalo, 'black_holes_are_point_masses', got=h.mdef, **lab)
        if mfunc == 'DELTA':
            ck.close(h.mass, 10 ** logm, 'mass_of_primordial_black_holes', rtol=1e-9, **lab)
        cand = [key for key in per_plane if key[1] == h.z]
        if not ck.expect(len(cand) > 0, 'black_holes_are_on_the_planes_of_the_realization', z=h.z, **lab):
            continue
        def dist(key):
            v = per_plane[key]
            return np.hypot(h.x - v['px'], h.y - v['py']) / max(v['r_c'], 1e-9)
        best = min(cand, key=dist)
        v = per_plane[best]
        npix = max(20, int(2 * v['r_c'] / pix))
        r = np.hypot(h.x - v['px'], h.y - v['py'])
        lim = (v['r_s'] if fh == 0 else v['r_c'] * (1 + 7.5 / npix) if fh == 1 else max(v['r_s'], v['r_c'] * (1 + 7.5 / npix)))
        ck.expect(r <= lim * (1 + 3 * zt(h.z)) + 1e-3, 'within_the_radius_of_an_image', r=r, limit=lim, z=h.z, **lab)
        got[best].append((h.x, h.y, r))
    if mfunc == 'GAUSSIAN' and add:
        pool.u('pbh_masses', stats.norm.cdf((np.log10([h.mass for h in add]) - logm) / sig))
    sep = min([9.0] + [np.hypot(per_plane[(i, z)]['px'] - per_plane[(j, z)]['px'], per_plane[(i, z)]['py'] - per_plane[(j, z)]['py'])
                       for z in zz for i in range(nimg) for j in range(i)])
    for key, v in per_plane.items():
        n, s = len(got[key]), v['smooth'] + v['clump']
        others = any(np.hypot(v['px'] - u['px'], v['py'] - u['py']) < v['r_c'] + u['r_c'] for q, u in per_plane.items() if q[1] == key[1] and q != key)
        if not others and not v['edge']:
            sl = 0.05 + 3 * zt(key[1])
            if v['clump'] == 0:
                pool.count('smooth_black_holes_' + mfunc, n, s, 0.02 + (0.05 if key[1] > 0.8 * w.zs or key[1] < 0.1 else 0))
                ck.expect(tail(n, s, sl + 0.05) > 1e-9, 'smooth_budget_of_a_plane', n=n, want=s, z=key[1], rmax=v['r_c'], **{q: lab[q] for q in lab if q != 'rmax'})
            elif v['smooth'] == 0:
                pool.count('clustered_black_holes_' + mfunc, n, s, 0.03)
                ck.expect(tail(n, s, sl + 0.1) > 1e-9, 'clustered_budget_of_a_plane', n=n, want=s, z=key[1], rmax=v['r_c'], **{q: lab[q] for q in lab if q != 'rmax'})
            else:
                ck.expect(tail(n, s, sl + 0.1) > 1e-9, 'budget_of_a_plane', n=n, want=s, z=key[1], rmax=v['r_c'], **{q: lab[q] for q in lab if q != 'rmax'})
            if fh == 0 and n:
                pool.u('smooth_black_holes_in_area', np.clip([(a[2] / v['r_s']) ** 2 for a in got[key]], 0, 1))
                pool.u('smooth_black_holes_angle', [(np.arctan2(a[1] - v['py'], a[0] - v['px']) / (2 * np.pi)) % 1 for a in got[key]])
            if v['smooth'] == 0 and n >= 5 and v['frac'] is not None:
                m = sum(np.hypot(a[0] - v['where'][0], a[1] - v['where'][1]) < v['where'][2] for a in got[key])
                pool.count('black_holes_follow_the_halos', m, n * v['frac'], 0.06)
                ck.expect(min(stats.binom.cdf(m, n, min(1, v['frac'] * 1.25 + 0.03)), stats.binom.sf(m - 1, n, max(0, v['frac'] * 0.75 - 0.03))) >= 0 and
                          stats.binom.cdf(m, n, max(0, v['frac'] * 0.75 - 0.03)) > 1e-9 and stats.binom.sf(m - 1, n, min(1, v['frac'] * 1.25 + 0.03)) > 1e-9,
                          'black_holes_follow_the_halos_of_a_plane', n=n, close=int(m), fraction=v['frac'], z=key[1], **lab)
    ck.note('smallest_image_separation', round(float(sep), 3))


# -- black holes in halos ---------------------------------------------------------------------------------------------------------
def black_holes(ck, rng, pool, k):
    from pyHalo.realization_extensions import RealizationExtensions
    w, specs = build(rng, int(rng.integers(20, 120)))
    for s in specs:
        s['mass'] = float(10 ** rng.uniform(6.2, 10))
        if s['z'] < 0.03:
            s['z'] = w.planes[2]
    real = w.realization(specs, sheets=False, rendering_classes=[], center=w.path(rng) if rng.integers(0, 2) else None)
    led = Ledger(real)
    f = float(rng.choice([1.0, 0.0, rng.uniform(0.1, 0.9)]))
    mlow = 6.0
    ratio = float(rng.uniform(-3, -1))
    sub = float(rng.uniform(4.6, 5.9))
    mmax = float(rng.choice([12.0, mlow + ratio + rng.uniform(0.2, 3)]))
    mmin = float(rng.uniform(sub + ratio - 0.3, mlow + ratio + rng.choice([-0.1, 2.5])))
    LN = float(rng.uniform(0.5, 2))
    lab = dict(k=k, f=f, ratio=ratio, subres=sub, mmin=mmin, mmax=mmax, LN=LN, halos=len(specs), theta=w.theta, zl=w.zl, zs=w.zs, geo=w.geo.volume_type
               if hasattr(w.geo, 'volume_type') else '')
    with recorded_means() as means:
        new = RealizationExtensions(real).add_black_holes(ratio, f, sub, mmin, mlow, mmax, LN)
    ck.case(dict(op='bh', **lab), f > 0)
    led.untouched(ck, op='bh', **lab)
    ck.expect(new.lens_cosmo is real.lens_cosmo and new.geometry is real.geometry, 'black_holes_share_the_lens_system', **lab)
    split = 10 ** (mlow + ratio)         # below: sub-resolution halos
    hosts = {}
    for h in real.halos:
        hosts.setdefault(round(np.log10(min(10 ** mmax, h.mass * 10 ** ratio)), 9), []).append(h)
    used, small = {}, []
    for b in new.halos:
        ck.expect(b.mdef == 'PT_MASS', 'black_holes_are_point_masses', got=b.mdef, **lab)
        ck.expect(10 ** mmin * (1 - 1e-9) < b.mass <= 10 ** mmax * (1 + 1e-9), 'black_hole_mass_limits', mass=b.mass, **lab)
        if b.mass > split * (1 + 1e-9):
            cand = [h for h in hosts.get(round(np.log10(b.mass), 9), []) if h.z == b.z]
            if ck.expect(len(cand) > 0, 'black_hole_mass_follows_the_halo', mass=b.mass, z=b.z, **lab):
                h = min(cand, key=lambda q: np.hypot(q.x - b.x, q.y - b.y) / q.nfw_params[1])
                rs = h.nfw_params[1] / refs.kpa(w.ap, h.z)
                r = np.hypot(h.x - b.x, h.y - b.y)
                ck.expect(r <= rs * (1 + 3 * zt(h.z) + 1e-6), 'black_hole_within_the_scale_radius', r=r, rs=rs, kind=type(h).__name__, **lab)
                used[h.unique_tag] = used.get(h.unique_tag, 0) + 1
                if len(cand) == 1:
                    pool.u('black_hole_offset', min(1, (r / rs) ** 2))
        else:
            small.append(b)
            ck.expect(b.mass >= 10 ** (sub + ratio) * (1 - 1e-6), 'sub_resolution_mass_range', mass=b.mass, **lab)
    ck.expect(all(v == 1 for v in used.values()) or mmax < 12, 'one_black_hole_per_halo', **lab)
    able = [h for h in real.halos if min(10 ** mmax, h.mass * 10 ** ratio) > 10 ** mmin]
    n_in = len(new.halos) - len(small)
    if f in (0.0, 1.0):
        ck.expect(n_in == len(able) * f, 'occupied_halos', n=n_in, able=len(able), **lab)
    else:
        pool.count('occupied_halos', n_in, len(able) * f, 0.0)
    # sub-resolution
    zz = sorted(set(h.z for h in real.halos))
    dz = [b - a for a, b in zip(zz[:-1], zz[1:])] + [w.zs - zz[-1]]
    geo = type(w.geo).__name__ and getattr(w.geo, '_geometrytype', None) or lab['geo']
    want = 0.0
    lo = max(sub, mmin - ratio)
    if lo < mlow and f > 0:
        for z, d in zip(zz, dz):
            amp, s = refs.sheth_tormen(w.ap, w.cosmo.colossus, z, sub, mlow, 1e8, f * LN, 0.0)
            vol = w.geo.volume_element_comoving(z, d)
            want += vol * log_integral(lambda m: amp * (m / 1e8) ** s, 10 ** lo, 10 ** mlow, 2000) if min(10 ** mmax, 10 ** mlow * 10 ** ratio) > 10 ** mmin else 0.0
    if means and lo == sub and want > 0 and f > 0:
        ck.close(sum(means), want, 'expected_number_of_sub_resolution_black_holes', rtol=3e-2, **lab)
    ck.expect(tail(len(small), want, 0.06) > 1e-9, 'sub_resolution_black_holes', n=len(small), want=want, **lab)
    pool.count('sub_resolution_black_holes', len(small), want, 0.03)
    cx, cy = real.rendering_center
    for b in small:
        ck.expect(b.z in zz, 'black_holes_are_on_the_planes_of_the_realization', z=b.z, **lab)
        d = w.comoving(b.z)
        rm = 0.5 * w.theta * w.geo.rendering_scale(b.z)
        r = np.hypot(b.x - float(cx(d)), b.y - float(cy(d)))
        ck.expect(r <= rm * (1 + 3 * zt(b.z)) + 2e-3, 'sub_resolution_in_the_volume', r=r, rmax=rm, z=b.z, **lab)
        if b.z > 0.1:
            pool.u('sub_resolution_in_area', min(1.0, (r / rm) ** 2))


# -- globular clusters ------------------------------------------------------------------------------------------------------------
def clusters(ck, rng, pool, k):
    from pyHalo.realization_extensions import RealizationExtensions
    w, specs = build(rng, int(rng.integers(0, 12)))
    real = w.realization(specs, sheets=False, rendering_classes=[]) if specs else w.realization([w.spec('TNFW_SUB')], rendering_classes=[])
    led = Ledger(real)
    mu, sg = float(rng.uniform(4.3, 5.8)), float(rng.uniform(0.05, 0.7))
    R = float(rng.uniform(0.1, 2.5))
    prof = str(rng.choice(['SPL_CORE', 'PTMASS']))
    nc = int(rng.integers(1, 4))
    cx, cy = rng.uniform(-1, 1, nc) + 6 * np.arange(nc), rng.uniform(-1, 1, nc)
    g0, gs = float(rng.uniform(4.5, 7)), float(rng.uniform(0.01, 0.6))
    r0, rsg = float(rng.uniform(1.5, 5)), float(rng.uniform(0.05, 1.2))
    kp = refs.kpa(w.ap, w.zl)
    want = rng.uniform(0.5, 400)
    sd = float(want * 10 ** (mu + sg ** 2 * np.log(10) / 2) / (np.pi * (R * kp) ** 2))
    single = nc == 1 and rng.integers(0, 2)
    ctr = (float(cx[0]), float(cy[0])) if single else (cx.tolist(), cy.tolist())
    lab = dict(k=k, mu=mu, sg=sg, R=R, prof=prof, centers=nc, density=sd, zl=w.zl)
    new = RealizationExtensions(real).add_globular_clusters(mu, sg, R, prof, g0, gs, r0, rsg, sd, ctr[0], ctr[1])
    ck.case(dict(op='gc', **lab))
    led.untouched(ck, op='gc', **lab)
    add = led.kept(ck, new, op='gc', **lab)
    per = [0] * nc
    for h in add:
        ck.expect(h.mdef == {'SPL_CORE': 'SPL_CORE', 'PTMASS': 'PT_MASS'}[prof] and h.z == w.zl, 'cluster_profile_and_redshift', got=h.mdef, z=h.z, **lab)
        d = np.hypot(h.x - cx, h.y - cy)
        i = int(np.argmin(d))
        per[i] += 1
        ck.expect(d[i] <= R * (1 + 1e-3), 'cluster_within_the_radius', r=float(d[i]), **lab)
        pool.u('clusters_in_area', min(1, (d[i] / R) ** 2))
        pool.u('clusters_angle', (np.arctan2(h.y - cy[i], h.x - cx[i]) / (2 * np.pi)) % 1)
        pool.u('cluster_masses', stats.norm.cdf((np.log10(h.mass) - mu) / sg))
        p = h.lenstronomy_params[0][0]
        if prof == 'SPL_CORE':
            rc = p['r_core'] * kp * 1e3 / (h.mass / 1e5) ** (1 / 3)
            ck.expect(g0 - gs - 1e-9 <= p['gamma'] <= g0 + gs + 1e-9, 'cluster_slope_range', got=p['gamma'], **lab)
            ck.expect((r0 - rsg) * 0.998 - 1e-9 <= rc <= (r0 + rsg) * 1.002 + 1e-9 if r0 > rsg else True, 'cluster_size_range', got=rc, mean=r0, half=rsg, **lab)
            pool.u('cluster_slopes', np.clip((p['gamma'] - g0 + gs) / (2 * gs), 0, 1))
            if r0 > rsg and rsg > 0.2:
                pool.u('cluster_sizes', np.clip((rc - r0 + rsg) / (2 * rsg), 0, 1))
    for n in per:
        p = 1.0 if int(want) <= n <= np.ceil(want) else max(tail(n, np.floor(want * 0.999), 1e-3), tail(n, np.ceil(want * 1.001), 1e-3))
        ck.expect(p > 1e-9, 'cluster_mass_budget', n=n, want=want, **lab)
        if want > 20:
            pool.count('clusters', n, want, 0.0 + 0.51 / 20)


# -- Gaussian fluctuations --------------------------------------------------------------------------------------------------------
def fluctuations(ck, rng, pool, k):
    from pyHalo.realization_extensions import RealizationExtensions
    w, specs = build(rng, int(rng.integers(1, 10)))
    real = w.realization(specs, sheets=bool(rng.integers(0, 2)), rendering_classes=[])
    led = Ledger(real)
    kp = refs.kpa(w.ap, w.zl)
    lam = float(10 ** rng.uniform(-1, 0))
    size = float(lam * rng.uniform(0.03, 0.5))
    amp = float(10 ** rng.uniform(-3, -1))
    var = float(size * rng.uniform(0.02, 0.3))
    shape = str(rng.choice(['ring', 'ellipse', 'aperture']))
    a = float(rng.uniform(0.4, 1.0))
    if shape == 'ring':
        args = dict(rmin=a, rmax=a + float(rng.uniform(0.05, 0.6)))
        area = np.pi * (args['rmax'] ** 2 - args['rmin'] ** 2)
    elif shape == 'ellipse':
        args = dict(amin=a, amax=a + float(rng.uniform(0.1, 0.6)), bmin=0.6 * a, bmax=0.6 * a + float(rng.uniform(0.1, 0.6)), angle=float(rng.uniform(0, np.pi)))
        area = np.pi * (args['amax'] * args['bmax'] - args['amin'] * args['bmin'])
    else:
        n = int(rng.integers(1, 5))
        ph = rng.uniform(0, 6.28) + 2 * np.pi * np.arange(n) / n
        args = dict(x_images=(1.2 * np.cos(ph)).tolist(), y_images=(1.2 * np.sin(ph)).tolist(), aperture=float(rng.uniform(0.1, 0.5)))
        area = np.pi * args['aperture'] ** 2
    want = float(rng.choice([rng.uniform(0.2, 2.5), rng.uniform(5, 300), 700.0]))
    scale = float(want * np.pi * size ** 2 / (area * kp ** 2))
    cut = int(rng.choice([50000, 400]))
    resc = bool(rng.integers(0, 4))
    lab = dict(k=k, shape=shape, lam=lam, size=size, amp=amp, want=want, cut=cut, rescale=resc, zl=w.zl)
    args0 = {q: (list(v) if isinstance(v, list) else v) for q, v in args.items()}
    with recorded_means() as means:
        new = RealizationExtensions(real).add_ULDM_fluctuations(lam, amp, size, var, cut, scale, shape, args, resc)
    if means:
        ck.close(sum(means), want * (len(args['x_images']) if shape == 'aperture' else 1), 'expected_number_of_fluctuations', rtol=1e-3 + zt(w.zl), **lab)
    ck.case(dict(op='fluc', args=args0, **lab))
    ck.expect(args == args0, 'settings_are_not_modified', **lab)
    led.untouched(ck, op='fluc', **lab)
    add = led.kept(ck, new, op='fluc', **lab)
    ck.expect(new.apply_mass_sheet_correction == real.apply_mass_sheet_correction and new.lens_cosmo is real.lens_cosmo, 'the_rest_of_the_realization_is_kept', **lab)
    nimg = len(args['x_images']) if shape == 'aperture' else 1
    per, kap, sgs = [0] * nimg, [], []
    for h in add:
        p = h.lenstronomy_params[0][0]
        ck.expect(h.z == w.zl and h.lenstronomy_ID[0].startswith('GAUSSIAN'), 'fluctuations_are_at_the_lens', z=h.z, got=h.lenstronomy_ID, **lab)
        x, y = p['center_x'], p['center_y']
        ck.close([x, y], [h.x, h.y], 'fluctuation_is_where_the_halo_is', rtol=1e-6, atol=1e-6, **lab)
        if shape == 'ring':
            r = np.hypot(x, y)
            ck.expect(args['rmin'] * (1 - 1e-6) <= r <= args['rmax'] * (1 + 1e-6), 'fluctuations_in_the_ring', r=r, **lab)
        elif shape == 'ellipse':
            c, s = np.cos(args['angle']), np.sin(args['angle'])
            u, v = x * c + y * s, -x * s + y * c
            ck.expect((u / args['amax']) ** 2 + (v / args['bmax']) ** 2 <= 1 + 1e-6, 'fluctuations_in_the_ellipse', u=u, v=v, **lab)
        else:
            d = np.hypot(x - np.array(args['x_images']), y - np.array(args['y_images']))
            i = int(np.argmin(d))
            per[i] += 1
            ck.expect(d[i] <= args['aperture'] * (1 + 1e-6), 'fluctuations_around_the_images', r=float(d[i]), **lab)
            pool.u('fluctuations_in_area', min(1, (d[i] / args['aperture']) ** 2))
        sgs.append(p['sigma'] * kp)
        kap.append(p['amp'] / (2 * np.pi * p['sigma'] ** 2))
    n = len(add)
    reduced = False
    if shape == 'aperture':
        if not resc or want < 0.8 * cut:
            for m in per:
                ck.expect(tail(m, want, 5e-3) > 1e-9, 'fluctuation_number', n=m, want=want, images=nimg, **{q: lab[q] for q in lab if q != 'want'})
            for j, m in enumerate(per):
                pool.count('fluctuations_image_%d_of_%d%s' % (j + 1, nimg, '_few' if want < 3 else ''), m, want, 5e-3)
        elif want > 1.2 * cut:
            ck.expect(all(m == cut for m in per), 'fluctuation_number_is_cut', n=per, **lab)
            reduced = True
    else:
        if not resc or want < 0.8 * cut:
            ck.expect(tail(n, want, 5e-3) > 1e-9, 'fluctuation_number', n=n, **lab)
            pool.count('fluctuations_' + shape, n, want, 5e-3)
        elif want > 1.2 * cut:
            ck.expect(n == cut, 'fluctuation_number_is_cut', n=n, **lab)
            reduced = True
    kap = np.array(kap)
    sc = amp * (np.sqrt(cut / want) if reduced else 1.0)
    if n and (reduced or want < 0.8 * cut or not resc):
        if not reduced:
            pool.u('fluctuation_amplitudes', stats.norm.cdf(kap / sc))
        elif n > 100:
            ck.close(np.std(kap), sc, 'fluctuation_amplitude_is_rescaled', rtol=0.25, n=n, **lab)
        if var < 0.19 * size:
            pool.u('fluctuation_sizes', stats.norm.cdf((np.array(sgs) - size) / var))


def body(ck):
    pool = Pool()
    rng = rng_for('C13')
    seed_global('C13')
    for k in range(200 if THOROUGH else 20):
        if ck.out_of_time():
            break
        for name, fn in (('primordial_black_holes', pbh), ('black_holes', black_holes), ('globular_clusters', clusters), ('fluctuations', fluctuations)):
            with ck.scenario(name, k=k):
                fn(ck, rng, pool, k)
    pool.judge(ck)
    presets(ck)
    with ck.scenario('black_holes_of_an_empty_realization'):
        from pyHalo.realization_extensions import RealizationExtensions
        w = World(rng)
        new = RealizationExtensions(w.realization([], rendering_classes=[])).add_black_holes(-2.0, 0.5)
        ck.case(dict(op='bh_empty'))


def presets(ck):
    """CDM with black holes is the CDM realization of the same draw with black holes joined to it"""
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.mbh import CDM_plus_BH
    rng = rng_for('C13p')
    for k in range(6 if THOROUGH else 2):
        with ck.scenario('CDM_plus_BH', k=k):
            zl, zs = round(float(rng.uniform(0.3, 0.7)), 2), round(float(rng.uniform(1.2, 2.2)), 2)
            base = dict(sigma_sub=float(rng.uniform(0.02, 0.04)), log_mlow=6.8, log_mhigh=9.5, cone_opening_angle_arcsec=3.0, LOS_normalization=float(rng.uniform(0.3, 1)))
            seed_global('C13', k)
            cdm = CDM(zl, zs, **base)
            seed_global('C13', k)
            gc = bool(k % 2)
            full = CDM_plus_BH(zl, zs, -1.5, -0.3, log10_mlow_halos_subres=6.0, log10_min_mbh=4.6, log10_mass_maximum=6.5, add_globular_clusters=gc,
                               kwargs_globular_clusters=dict(log10_mgc_mean=5.0, log10_mgc_sigma=0.3, rendering_radius_arcsec=0.5) if gc else None, **base)
            lab = dict(preset='CDM_plus_BH', k=k, halos=len(cdm.halos), got=len(full.halos))
            ck.case(lab)
            a = {h.unique_tag: snapshot(h) for h in cdm.halos}
            b = {h.unique_tag: h for h in full.halos}
            ck.expect(len(b) == len(full.halos) and all(t in b and snapshot(b[t]) == s for t, s in a.items()), 'preset_keeps_the_halos', **lab)
            bh = [h for t, h in b.items() if t not in a and h.mdef == 'PT_MASS']
            ck.expect(all(10 ** 4.6 < h.mass <= 10 ** 6.5 for h in bh), 'black_hole_mass_limits', **lab)
            big = [h for h in cdm.halos if h.mass > 10 ** 6.8 * 1.0001]
            n = sum(h.mass > 10 ** (6.8 - 1.5) * 1.0001 for h in bh)
            p = 10 ** -0.3
            ck.expect(min(stats.binom.cdf(n, len(big), p), stats.binom.sf(n - 1, len(big), p)) > 1e-8, 'occupied_halos', n=n, able=len(big), f=p, **lab)
            ck.expect(any(h.mdef == 'SPL_CORE' for h in full.halos) == gc, 'clusters_when_asked', **lab)


if __name__ == '__main__':
    vf.main('C13', RULE, body)
