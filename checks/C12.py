import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import copy
import numpy as np
from scipy import stats
from vf import THOROUGH, rng_for, seed_global
from worlds import World, SIMPLE, exports, snapshot, was_shifted
from C09 import held_normal
from C17 import sigma2d, m2d
from C19 import deflection
import refs

RULE = ('realizations of mixed halos transformed by every self-interacting / cored / galaxy conversion; a case is one conversion of one '
        'realization (its selection, the objects it kept, and the profile of every object it changed)')
OTHER = ['NFW_FIELD', 'GNFW_FIELD', 'GNFW_SUB', 'SPL_FIELD', 'SPL_SUB', 'PJAFFE', 'TNFWC', 'BH', 'GAUSSIAN', 'GC', 'SIS', 'CORE_COLLAPSED',
         'HYBRID', 'MASSIVE_GALAXY']


def mass_in(f, r):
    u = np.linspace(np.log(1e-6 * r), np.log(r), 3001)
    x = np.exp(u)
    y = 4 * np.pi * x ** 3 * np.asarray(f(x), float)
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(u)))


def nfw_mass(rhos, rs, r):
    x = r / rs
    return 4 * np.pi * rhos * rs ** 3 * (np.log1p(x) - x / (1 + x))


def zt(z):
    """accuracy of the kpc per arcsec table (linear in z) at low redshift"""
    return 3e-2 if z < 0.02 else 3e-4 / z


# scale and core radius of the parametric model (t in units of the collapse time)
def rs_of(t):
    if t <= 1:
        return 1.13293 - 0.518186 * t + 0.30265 * t ** 2 - 0.400463 * t ** 3 + (1 - 1.13293) * np.log(0.001 + t) / np.log(0.001)
    return rs_of(0.5) * np.exp(-0.47 * (t - 0.5) - 2.4 * (t - 0.5) ** 3)


def rc_of(t):
    if t <= 1:
        return 1.06419 * np.sqrt(t) - 1.33207 * t + 0.431133 * t ** 2 - 0.148087 * t ** 3 + 0.024455 * t ** 4
    return max(1e-4, rc_of(0.5) - 0.28 * (t - 0.5))


class Before(object):
    """what is remembered of a realization before a conversion"""

    def __init__(self, real):
        self.real, self.halos = real, list(real.halos)
        self.snap = [snapshot(h) for h in self.halos]
        self.args = [copy.deepcopy(h.args_profile) if isinstance(h.args_profile, dict) else None for h in self.halos]
        self.exports = [exports(h) for h in self.halos]
        self.info = [self.data(h) for h in self.halos]

    @staticmethod
    def data(h):
        if h.mdef != 'TNFW':
            return None
        _, rt = h.profile_args
        rhos, rs, r200 = h.nfw_params
        tau, norm = rt / rs, h.rescale_norm
        tnfw = lambda r: norm * rhos / (r / rs) / (1 + r / rs) ** 2 * tau ** 2 / (tau ** 2 + (r / rs) ** 2)
        return dict(tnfw=tnfw, c=float(h.c), rt=float(rt), rhos=float(rhos), rs=float(rs), zinf=float(h.z_infall) if h.is_subhalo else None,
                    bound=float(h.bound_mass) if h.is_subhalo else None, m200=mass_in(tnfw, rs * h.c),
                    vmax=float(h.vmax_nfw), zeval=float(h.z_eval))


def judge(ck, b, new, changed, mdefs, **lab):
    """changed: index -> None; every other object has to be kept as it is"""
    real = b.real
    ck.expect(len(new.halos) == len(b.halos), 'no_object_lost_or_added', before=len(b.halos), got=len(new.halos), **lab)
    if len(new.halos) != len(b.halos):
        return
    for i, (h, g) in enumerate(zip(b.halos, new.halos)):
        if i in changed:
            ck.expect(g is not h, 'selected_halos_are_replaced', i=i, **lab)
            ck.expect(g.mdef in mdefs, 'selected_halos_get_the_profile', got=g.mdef, want=mdefs, **lab)
            s = b.snap[i]
            ck.expect((g.mass, g.x, g.y, g.z, bool(g.is_subhalo), g.unique_tag) == (s[1], s[2], s[3], s[4], s[6], s[7]),
                      'identity_and_place_are_kept', before=s, after=snapshot(g), **lab)
            d = b.info[i]
            if d is not None and g.is_subhalo:
                ck.close(g.z_infall, d['zinf'], 'infall_history_is_kept', rtol=1e-9, kind=g.mdef, **lab)
            if d is not None and g.is_subhalo and g.mdef in ('TNFWC', 'CORE_COLLAPSED', 'CNFW', 'SIS', 'GNFW'):
                ck.close(g.bound_mass, d['bound'], 'bound_mass_is_kept', rtol=1e-5, kind=g.mdef, **lab)
        else:
            ck.expect(g is h or (snapshot(g) == b.snap[i] and exports(g) == b.exports[i]), 'other_objects_are_untouched', before=b.snap[i],
                      after=snapshot(g), i=i, **lab)
    for i, h in enumerate(b.halos):
        ck.expect(snapshot(h) == b.snap[i] and (b.args[i] is None or h.args_profile == b.args[i]) and exports(h) == b.exports[i],
                  'the_realization_converted_is_not_modified', i=i, before=b.snap[i], args=b.args[i], after=h.args_profile if isinstance(h.args_profile, dict) else None, **lab)
    ck.expect(new.lens_cosmo is real.lens_cosmo and new.geometry is real.geometry and
              new.apply_mass_sheet_correction == real.apply_mass_sheet_correction and new.rendering_classes == real.rendering_classes,
              'the_rest_of_the_realization_is_kept', **lab)
    ck.expect(was_shifted(new) == was_shifted(real), 'shift_is_remembered', **lab)
    for f, g in zip(new.rendering_center, real.rendering_center):
        q = np.linspace(1.0, real.lens_cosmo.cosmo.D_C_z(real.lens_cosmo.z_source) * 0.99, 5)
        ck.close(f(q), g(q), 'the_rendering_volume_stays', rtol=1e-12, atol=1e-15, **lab)


def parametric(ck, w, d, g, x_core, **lab):
    """a halo collapsed to a core of a given size"""
    kp = refs.kpa(w.ap, g.z)
    p = g.lenstronomy_params[0][0]
    rs = x_core * d['rs'] if d['rt'] >= x_core * d['rs'] else 0.99 * d['rt']
    f = dict(rtol=2e-3 + zt(g.z), c=d['c'], rt=d['rt'], rs=d['rs'], **lab)
    ck.close(p['Rs'] * kp, rs, 'collapsed_core_size', **f)
    ck.close(p['r_core'] * kp, 0.99 * rs, 'collapsed_core_size', **f)
    ck.close(p['r_trunc'] * kp, d['rt'], 'truncation_is_kept', **f)
    conserved(ck, d, g, **lab)


def conserved(ck, d, g, **lab):
    if d['rt'] < 1e-2 * d['rs']:     # inside the innermost radius of the normalization
        return
    ck.close(mass_in(g.density_profile_3d_lenstronomy, d['c'] * d['rs']), d['m200'], 'mass_within_r200_is_conserved', rtol=6e-3,
             **dict(lab, kind=g.mdef, c=d['c'], tau=d['rt'] / d['rs']))


def evolved(ck, w, d, g, t, **lab):
    kp = refs.kpa(w.ap, g.z)
    p = g.lenstronomy_params[0][0]
    te = min(1.6, t)
    f = dict(c=d['c'], t_over_tc=t, **lab)
    ck.close(p['Rs'] * kp, d['rs'] * rs_of(te), 'scale_radius_evolves', rtol=3e-3 + zt(g.z) + 0.04 * (abs(t - 1) < 0.02), **f)
    ck.close(p['r_core'] * kp, max(1e-7 * rs_of(te), rc_of(te)) * d['rs'], 'core_radius_evolves', rtol=1e-2 + zt(g.z) + 0.05 * (abs(t - 1) < 0.02), atol=2e-3 * d['rs'], **f)
    ck.close(p['r_trunc'] * kp, d['rt'], 'truncation_is_kept', rtol=2e-3 + zt(g.z), **f)
    conserved(ck, d, g, **f)


def composite(ck, w, d, h, g, scale, slope, gamma, **lab):
    try:
        g.profile_args
        ck.count('composite_profiles')
    except Exception as e:
        if 'cannot be negative' not in str(e):
            raise
        ck.count('composite_profiles_without_solution')     # declared by the profile: no such combination exists
        return
    rs, rt = d['rs'], d['rt']
    # the radius where the slope of the truncated profile is `slope`
    sl = lambda x: -(1 + 2 * x / (1 + x) + 2 * x ** 2 / ((rt / rs) ** 2 + x ** 2))
    lo, hi = 1e-8, 1e8
    for _ in range(200):
        mid = np.sqrt(lo * hi)
        lo, hi = (mid, hi) if sl(mid) > slope else (lo, mid)
    rm = lo * rs
    f = dict(slope=slope, scale=scale, gamma=gamma, tau=rt / rs, **lab)
    target = scale * mass_in(d['tnfw'], rm)
    p = g.lenstronomy_params[0][0]
    cut = sum(3e-10 / v for k, v in p.items() if k.startswith('alpha') or k.startswith('theta'))     # the exported angles are rounded
    ck.expect(all(v >= 0 for k, v in p.items() if k.startswith('alpha') or k.startswith('theta')), 'composite_components_are_not_negative', exported=p, **f)
    if gamma > 0:
        cut += max(0, gamma - 2.5) * 0.1        # the mass of a steep centre is in the innermost radii
        ck.close(mass_in(g.density_profile_3d, rm), target, 'collapsed_mass_within_match_radius', rtol=1.5e-2 + cut, **f)
        ck.close(mass_in(g.density_profile_3d, d['c'] * rs), d['m200'], 'mass_within_r200_is_conserved', rtol=6e-3 + cut, kind='CC', **f)
        ck.close(g.lenstronomy_params[0][0]['gamma_inner'], gamma, 'inner_slope', **f)
        # projections of the same density
        radii = np.geomspace(0.02, 3, 300) * rs
        if rt > 0.05 * rs:
            kap = np.asarray(g.kappa(radii))
            sc = refs.scrit(w.ap, g.z, w.zs) * 1e-6
            for j in (40, 150, 260):
                ck.close(kap[j], sigma2d(g.density_profile_3d, radii[j]) / sc, 'composite_convergence', rtol=1e-2 + 2 * zt(g.z) + cut, r=radii[j] / rs, **f)
            rmax = 'r200' if f['slope'] > -1.9 else float(2 * rs)
            R = d['c'] * rs if rmax == 'r200' else rmax
            ck.close(g.mass_2d(rmax), m2d(g.density_profile_3d, R) - m2d(g.density_profile_3d, 1e-3 * R), 'composite_projected_mass',
                     rtol=2e-2 + 2 * zt(g.z) + cut, rmax=rmax, **f)
    else:
        th = g.lenstronomy_params[0][0]['theta_E_inner']
        ap, z, zs = w.ap, g.z, w.zs
        sc = refs.scrit(ap, z, zs) * 1e-6 * refs.kpa(ap, z) ** 2     # Msun / arcsec^2
        ck.close(np.pi * th ** 2 * sc, target, 'central_black_hole_mass', rtol=1.5e-2 + 2 * zt(g.z) + cut, **f)
        ck.expect(g.lenstronomy_ID == ['CORE_COLLAPSED_HALO_BH'], 'selected_halos_get_the_profile', **f)
    # the two components together are the exported profile
    from lenstronomy_standin import _PROFILES
    parts = g.lenstronomy_params_split[0]
    names = ['POINT_MASS' if gamma < 0 else 'PSEUDO_DPL', 'TNFW']
    x, y = w.rng.normal(0, 1, (2, 5)) * rs / refs.kpa(w.ap, g.z) * 2
    x, y = x + p['center_x'], y + p['center_y']
    one = _PROFILES[g.lenstronomy_ID[0]]().derivatives(x, y, **p)
    two = np.sum([deflection(n, k, x, y) for n, k in zip(names, parts)], axis=0)
    ck.close(np.array(one), two, 'components_add_up_to_the_profile', rtol=1e-5, atol=1e-9, **f)
    rr = np.geomspace(0.05, 20, 7) * rs / refs.kpa(w.ap, g.z)
    want = _PROFILES[g.lenstronomy_ID[0]]().derivatives(p['center_x'] + rr, p['center_y'] + 0 * rr, **p)[0]
    got = np.array([float(np.squeeze(g.deflection_angle(v))) for v in rr])
    ck.close(got, want, 'composite_deflection', rtol=1e-6, atol=1e-12, **f)


def exported_mass(w, g, r_kpc):
    """mass within a radius from the exported parameters of a (generalized) power law"""
    from lenstronomy.LensModel.Profiles.splcore import SPLCORE
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw
    p = {k: v for k, v in g.lenstronomy_params[0][0].items() if not k.startswith('center')}
    kp = refs.kpa(w.ap, g.z)
    sc = refs.scrit(w.ap, g.z, w.zs) * 1e-6 * kp ** 2
    prof = SPLCORE() if g.mdef == 'SPL_CORE' else PseudoDoublePowerlaw()
    return sc * float(prof.mass_3d_lens(r_kpc / kp, **p))


def lens(rng, n_other=4, kinds=('TNFW_SUB', 'TNFW_FIELD')):
    w = World(rng, scatter=bool(rng.integers(0, 2)))
    n = int(rng.integers(5, 16))
    specs = [w.spec(str(rng.choice(kinds)), rng=rng) for _ in range(n)]
    for s in specs:
        if rng.integers(0, 6) == 0 and s['kind'] == 'TNFW_FIELD':
            s['z'] = w.zl      # two-halo objects
    specs += [w.spec(str(rng.choice(OTHER)), rng=rng) for _ in range(n_other)]
    specs = [specs[i] for i in rng.permutation(len(specs))]
    for s in specs:
        if s['kind'] == 'MASSIVE_GALAXY' or s['kind'] == 'GNFW_FIELD' or s['kind'] == 'GNFW_SUB':
            s['z'] = min(max(s['z'], w.planes[0]), w.planes[-1])
    real = w.realization(specs, sheets=bool(rng.integers(0, 2)), rendering_classes=[], center=w.path(rng) if rng.integers(0, 2) else None)
    if rng.integers(0, 2) and real.geometry is not None:
        real = real.shift_background_to_source(*w.path(rng)) if rng.integers(0, 2) else real
    return w, real


def ranges(rng, lo=4.0, hi=13.0):
    cuts = sorted(rng.uniform(6.2, 9.6, int(rng.integers(0, 3))).tolist())
    e = [lo] + [float(c) for c in cuts] + [hi]
    return [[a, b] for a, b in zip(e[:-1], e[1:])]


def body(ck):
    from pyHalo.realization_extensions import RealizationExtensions
    rng = rng_for('C12')
    seed_global('C12')
    tails = []            # (successes, trials, probability, label) of random selections
    pulls = []            # standard normal deviates of scattered timescales
    n = 220 if THOROUGH else 34
    for k in range(n):
        if ck.out_of_time():
            break
        with ck.scenario('conversion', k=k):
            w, real = lens(rng)
            b = Before(real)
            ext = RealizationExtensions(real)
            cdm = [i for i, h in enumerate(b.halos) if h.mdef == 'TNFW']
            lab = dict(k=k, halos=len(b.halos), zl=w.zl, scatter=w.scatter)

            # -- selection by mass
            with ck.scenario('select'):
                rsub, rfld = ranges(rng, 6.0, 9.5), ranges(rng, 6.0, 9.5)
                if rng.integers(0, 2) and cdm:
                    m = b.halos[int(rng.choice(cdm))].mass         # an edge at the mass of a halo
                    rsub[0][0] = rfld[-1][1] = float(np.log10(m))
                prob = lambda: float(rng.choice([0.0, 1.0, 0.5, 0.3, 0.8]))
                psub, pfld = [prob() for _ in rsub], [prob() for _ in rfld]
                fsub = [(lambda h, p=p: p if h.c > 9 else 0.0) if rng.integers(0, 3) == 0 else p for p in psub]
                ffld = [(lambda h, p=p: p if h.c > 9 else 0.0) if rng.integers(0, 3) == 0 else p for p in pfld]
                def wanted(i):
                    h = b.halos[i]
                    if h.mdef != 'TNFW':
                        return 0.0
                    for r, p in zip(*((rsub, fsub) if h.is_subhalo else (rfld, ffld))):
                        if h.mass >= 10 ** r[0] and h.mass < 10 ** r[1]:
                            return p(h) if callable(p) else p
                    return 0.0
                want = [wanted(i) for i in range(len(b.halos))]
                reps = 20
                hits = np.zeros(len(b.halos))
                for _ in range(reps):
                    idx = ext.core_collapse_by_mass(rsub, rfld, fsub, ffld)
                    ck.expect(len(set(idx)) == len(idx) and list(idx) == sorted(idx), 'indexes_are_unique', idx=idx, **lab)
                    for i in idx:
                        hits[i] += 1
                ck.case(dict(op='select', sub=rsub, field=rfld, psub=psub, pfld=pfld, **lab), len(cdm) > 0)
                for i, p in enumerate(want):
                    if p in (0.0, 1.0):
                        ck.expect(hits[i] == reps * p, 'certain_selection', mdef=b.halos[i].mdef, mass=b.halos[i].mass, hits=hits[i], p=p,
                                  sub=b.halos[i].is_subhalo, rsub=rsub, rfld=rfld, **lab)
                    else:
                        tails.append((hits[i], reps, p, 'mass_sub' if b.halos[i].is_subhalo else 'mass_field'))

            # -- conversion of selected halos
            for prof in ('TNFWC', 'CC_COMPOSITE', 'GNFW', 'SPL_CORE'):
                with ck.scenario('collapse:' + prof):
                    pick = sorted(int(i) for i in rng.choice(cdm, int(rng.integers(0, len(cdm) + 1)), replace=False))
                    if prof == 'TNFWC':
                        kw = dict(x_core_halo=float(rng.choice([0.02, 0.1, 0.3, rng.uniform(0.01, 0.9)])))
                    elif prof == 'CC_COMPOSITE':
                        kw = dict(gamma_inner=float(rng.choice([2.2, 2.6, -1.0, rng.uniform(2.0, 2.8)])), scale_match_r=float(rng.uniform(1.05, 1.5)),
                                  log_slope_match=float(rng.uniform(-2.2, -1.7)))
                    elif prof == 'GNFW':
                        kw = dict(gamma_inner=float(rng.uniform(0.3, 2.6)), gamma_outer=float(rng.uniform(3.2, 5)))
                    else:
                        kw = dict(log_slope_halo=float(rng.uniform(2.2, 3.5)), x_core_halo=float(rng.uniform(0.02, 0.4)))
                    if prof in ('GNFW', 'SPL_CORE') and rng.integers(0, 3) == 0:
                        kw['x_match'] = 'c' if rng.integers(0, 2) else float(rng.uniform(1, 4))
                    if prof == 'CC_COMPOSITE':    # strongly truncated halos have no such solution
                        pick = [i for i in pick if b.info[i]['rt'] > 4 * b.info[i]['rs']]
                    kw0 = copy.deepcopy(kw)
                    new = ext.add_core_collapsed_halos(pick, halo_profile=prof, **kw)
                    ck.case(dict(op=prof, pick=pick, kw=kw0, **lab), len(pick) > 0)
                    ck.expect(kw == kw0, 'settings_are_not_modified', **lab)
                    judge(ck, b, new, pick, {'TNFWC': ['TNFWC'], 'CC_COMPOSITE': ['CORE_COLLAPSED'], 'GNFW': ['PSEUDO_DPL'],
                                             'SPL_CORE': ['SPL_CORE']}[prof], op=prof, **lab)
                    for i in pick[:6]:
                        g, d = new.halos[i], b.info[i]
                        if prof == 'TNFWC':
                            parametric(ck, w, d, g, kw['x_core_halo'], **lab)
                        elif prof == 'CC_COMPOSITE':
                            composite(ck, w, d, b.halos[i], g, kw['scale_match_r'], kw['log_slope_match'], kw['gamma_inner'], **lab)
                        else:
                            xm = kw.get('x_match', 2.16)
                            xm = d['c'] if xm == 'c' else xm
                            ck.close(exported_mass(w, g, xm * d['rs']), nfw_mass(d['rhos'], d['rs'], xm * d['rs']), 'mass_at_matching_radius', rtol=6e-3 + 3 * zt(g.z),
                                     prof=prof, xm=xm, sub=bool(g.is_subhalo), **lab)
                            p = g.lenstronomy_params[0][0]
                            kp = refs.kpa(w.ap, g.z)
                            if prof == 'GNFW':
                                ck.close([p['gamma_inner'], p['gamma_outer'], p['Rs'] * kp], [kw['gamma_inner'], kw['gamma_outer'], d['rs']],
                                         'requested_shape', rtol=2e-3 + zt(g.z), prof=prof, **lab)
                            else:
                                ck.close([p['gamma'], p['r_core'] * kp], [kw['log_slope_halo'], kw['x_core_halo'] * d['rs']], 'requested_shape', rtol=2e-3 + zt(g.z),
                                         prof=prof, **lab)

            # -- cored halos
            for prof in ('CNFW', 'TNFWC'):
                with ck.scenario('cored:' + prof):
                    pick = sorted(int(i) for i in rng.choice(cdm, int(rng.integers(0, len(cdm) + 1)), replace=False))
                    beta = float(rng.uniform(0.02, 0.9))
                    new = ext.add_cored_halos(pick, beta, prof)
                    ck.case(dict(op='cored' + prof, pick=pick, beta=beta, **lab), len(pick) > 0)
                    judge(ck, b, new, pick, [prof], op='cored:' + prof, **lab)
                    for i in pick[:6]:
                        g, d = new.halos[i], b.info[i]
                        if g.mdef == 'TNFWC' and prof == 'TNFWC':
                            parametric(ck, w, d, g, beta, **lab)
                        elif g.mdef == 'CNFW':
                            p, kp = g.lenstronomy_params[0][0], refs.kpa(w.ap, g.z)
                            ck.close([p['Rs'] * kp, p['r_core'] * kp], [d['rs'], beta * d['rs']], 'requested_shape', rtol=2e-3 + zt(g.z), prof=prof, **lab)
                            # far outside the core the profile is the collisionless one
                            r = 300 * d['rs']
                            ck.close(g.density_profile_3d(r), d['rhos'] / (300 * 301. ** 2), 'cored_halo_outskirts', rtol=2e-2 + 3 * zt(g.z), beta=beta, **lab)

            # -- from timescales / cross sections
            for how in ('timescale', 'cross_section'):
                with ck.scenario('sidm_from_' + how):
                    bins = ranges(rng)
                    if cdm and rng.integers(0, 2) and len(bins) > 1:
                        bins[0][1] = bins[1][0] = float(np.log10(b.halos[int(rng.choice(cdm))].mass))
                        bins = [q for q in bins if q[0] < q[1]]
                        bins = [[bins[i][0] if i == 0 else bins[i - 1][1], bins[i][1]] for i in range(len(bins))]
                    lam = float(rng.uniform(-0.3, 0.5))
                    evolving = bool(rng.integers(0, 2))
                    prof = 'TNFWC' if evolving or rng.integers(0, 2) else 'CC_COMPOSITE'
                    xc = float(rng.uniform(0.02, 0.4))
                    pc = float(rng.choice([1.0, 1.0, 1.0, 0.0, 0.5]))
                    thr = float(rng.choice([1.0, 0.7, 1.3]))
                    sc, sl = float(rng.uniform(1.05, 1.5)), float(rng.uniform(-2.2, -1.7))
                    gam = float(rng.choice([2.5, -1.0, rng.uniform(2.0, 2.8)]))
                    kw = dict(evolving_SIDM_profile=evolving, x_core_halo=xc, collapse_probability=pc, halo_profile=prof, gamma_inner=gam,
                              scale_match_r=sc, log_slope_match=sl, t_over_tc_collapse_threshold=thr)
                    sig = None
                    some = [i for i, h in enumerate(b.halos) if h.mdef != 'NFW']      # see nfw_halos_in_sidm
                    if prof == 'CC_COMPOSITE':
                        sub = [i for i in some if i not in cdm or b.info[i]['rt'] > 4 * b.info[i]['rs']]
                    else:
                        sub = some
                    part = type(real).from_halos([b.halos[i] for i in sub], real.lens_cosmo, real.kwargs_halo_model, real.apply_mass_sheet_correction,
                                                 real.rendering_classes, real._rendering_center_x, real._rendering_center_y, real.geometry)
                    part._has_been_shifted = real._has_been_shifted
                    # from_halos may order the halos
                    bb = Before(part)
                    e2 = RealizationExtensions(part)
                    if how == 'timescale':
                        mu = rng.uniform(0.3, 2.0, len(bins)).tolist()
                        if rng.integers(0, 2):
                            sig = rng.uniform(0.05, 0.6, len(bins)).tolist()
                        held = float(rng.uniform(-2, 2)) if sig is not None and rng.integers(0, 2) else None
                        if held is None:
                            new = e2.toSIDM_from_timescale(bins, mu, sig, lam, **kw)
                        else:
                            with held_normal(held) as asked:
                                new = e2.toSIDM_from_timescale(bins, mu, sig, lam, **kw)
                            if not asked[0]:
                                held = None
                    else:
                        mu = rng.uniform(1.5, 3.5, len(bins)).tolist()
                        given = bool(rng.integers(0, 2))
                        if given:
                            new = e2.toSIDM_from_cross_section(bins, mu, lam, sidm_timescale_function=lambda rhos, rs, s: 4e9 / rhos / rs ** 0.3 / s * 10, **kw)
                        else:
                            new = e2.toSIDM_from_cross_section(bins, mu, lam, **kw)
                    l2 = dict(lab, how=how, evolving=evolving, pc=pc, thr=thr, prof=prof)
                    ck.case(dict(bins=bins, mu=mu, sig=sig, lam=lam, **l2), len(cdm) > 0)
                    changed = []
                    cut = 0.15 if evolving else thr
                    for i, (h, g) in enumerate(zip(bb.halos, new.halos)):
                        d = bb.info[i]
                        if d is None:
                            continue
                        j = [q for q, r in enumerate(bins) if r[0] <= np.log10(h.mass) < r[1]][0]
                        age = lambda z: float(w.ap.age(z).value)
                        zi = min(d['zinf'], 10.0) if h.is_subhalo else h.z
                        eff = age(zi) - age(10.0) + 10 ** lam * (age(h.z) - age(zi))
                        t = float(g.t_over_tc)
                        ck.close(float(g.halo_effective_age), eff, 'effective_age', rtol=2e-3, atol=0.02, zinf=d['zinf'], z=h.z, lam=lam, **l2)
                        if how == 'timescale':
                            if sig is None:
                                ck.close(eff / t, 10 ** mu[j], 'timescale_of_the_mass_bin', rtol=1e-2, mass=h.mass, bins=bins, mu=mu, **l2)
                            elif held is None:
                                pulls.append((np.log10(eff / t) - mu[j]) / sig[j])
                            else:
                                pull = (np.log10(eff / t) - mu[j]) / sig[j]
                                ck.close(min(pull * sig[j], -pull * sig[j], key=lambda v: abs(v - held * sig[j])), held * sig[j], 'timescale_quantile', atol=6e-3, mass=h.mass, bins=bins, mu=mu,
                                         sig=sig, held=held, **l2)
                        else:
                            if given:
                                tc = 4e9 / d['rhos'] / d['rs'] ** 0.3 / 10 ** mu[j] * 10
                            else:
                                # Essig et al. 2019, C = 0.75
                                G = 4.30091e-6 * (3.2407793e-17) ** 2     # kpc^3 / Msun / s^2
                                tc = 150 / 0.75 / (10 ** mu[j] * 2.0889e-10 * d['rhos'] * d['rs'] * np.sqrt(4 * np.pi * G * d['rhos'])) / 3.15576e16
                            ck.close(eff / t, tc, 'timescale_of_the_cross_section', rtol=1e-2, mass=h.mass, given=given, **l2)
                        if t < cut * (1 - 1e-9):
                            ck.expect(g is h, 'young_halos_stay_collisionless', t=t, cut=cut, **l2)
                        elif pc in (0.0, 1.0):
                            ck.expect((g is not h) == (pc == 1.0), 'certain_collapse', t=t, got=g.mdef, cut=cut, **l2)
                        else:
                            tails.append((int(g is not h), 1, pc, 'collapse'))
                        if g is not h:
                            changed.append(i)
                            if prof == 'CC_COMPOSITE':
                                composite(ck, w, d, h, g, sc, sl, gam, **l2)
                            elif evolving:
                                evolved(ck, w, d, g, t, **l2)
                            else:
                                parametric(ck, w, d, g, xc, **l2)
                    judge(ck, bb, new, changed, ['TNFWC', 'CORE_COLLAPSED'], **l2)

            # -- untruncated halos: accepted by the conversions, which then stop
            if k == 0:
                with ck.scenario('nfw_halos_in_sidm'):
                    one = [w.make(w.spec('NFW_FIELD', rng=rng))]
                    part = type(real).from_halos(one, real.lens_cosmo, {}, True, None, None, None, real.geometry)
                    RealizationExtensions(part).toSIDM_from_timescale([[5, 13]], [0.5], None, 0.1, evolving_SIDM_profile=True)
                    ck.case(dict(op='nfw', **lab))

            # -- a common evolution time
            with ck.scenario('sidm_halo_list'):
                t = float(rng.choice([1e-6, 0.05, 0.2, 0.5, 0.9, 1.2, 2.0, rng.uniform(0.01, 1.6)]))
                some = [b.halos[i] for i in cdm]
                scaling = [None, None, 0.5, 2.0][int(rng.integers(0, 4))]
                new = ext.toSIDM_halo_list(some, t_over_tc=t, t_over_tc_cut=0.0, **({} if scaling is None else dict(subhalo_evolution_scaling=scaling)))
                ck.case(dict(op='list', t=t, **lab), len(some) > 0)
                by = {h.unique_tag: h for h in new.halos}
                ck.expect(len(by) == len(some), 'no_object_lost_or_added', op='list', **lab)
                for i in cdm[:8]:
                    g = by[b.halos[i].unique_tag]
                    ck.close(g.t_over_tc, t, 'common_evolution_time', rtol=2e-3, sub=bool(g.is_subhalo), scaling=scaling, **lab)
                    evolved(ck, w, b.info[i], g, t, **lab)

            # -- a list of halos is converted one by one, with every setting passed on
            with ck.scenario('sidm_halo_list_is_one_by_one'):
                kw = dict(t_over_tc_cut=float(rng.choice([0.0, 0.15, 0.5])), evolving_profile=bool(rng.integers(0, 2)), collapse_probability=float(rng.choice([1.0, 1.0, 0.5, 0.0])),
                          halo_profile=str(rng.choice(['TNFWC', 'CC_COMPOSITE'])), gamma_inner=float(rng.uniform(2.0, 2.8)), scale_match_r=float(rng.uniform(1.05, 1.5)),
                          log_slope_match=float(rng.uniform(-2.2, -1.7)))
                if kw['evolving_profile']:
                    kw['halo_profile'] = 'TNFWC'
                some = [b.halos[i] for i in cdm if kw['halo_profile'] == 'TNFWC' or b.info[i]['rt'] > 4 * b.info[i]['rs']]
                kw['x_core_halo'] = None if kw['evolving_profile'] and rng.integers(0, 2) else float(rng.uniform(0.02, 0.4))
                how = str(rng.choice(['t_c', 't_c', 't_over_tc'])) if kw['evolving_profile'] else 't_c'
                if how == 't_c':
                    kw['t_c'] = float(10 ** rng.uniform(-0.5, 2.5)) if rng.integers(0, 4) else 1e-3
                    kw['subhalo_evolution_scaling'] = float(10 ** rng.uniform(-0.3, 0.5))
                else:
                    kw['t_over_tc'] = float(rng.uniform(0.05, 2))
                left_out = [q for q in ('t_over_tc_cut', 'collapse_probability', 'gamma_inner', 'scale_match_r', 'log_slope_match') if rng.integers(0, 4) == 0]
                kw = {q: v for q, v in kw.items() if q not in left_out}
                np.random.seed(k + 1)
                one = [ext.toSIDM_single_halo(h, **kw) for h in some]
                for h in some:
                    h.__dict__.pop('_kwargs_lenstronomy', None)
                np.random.seed(k + 1)
                new = ext.toSIDM_halo_list(some, **kw)
                l2 = dict(settings=dict(kw), **lab)
                ck.case(dict(op='list_one_by_one', **l2), any(g is not h for g, h in zip(one, some)))
                by = {h.unique_tag: h for h in new.halos}
                ck.expect(len(by) == len(some) == len(new.halos), 'no_object_lost_or_added', op='list', **l2)
                for h, g in zip(some, one):
                    q = by[h.unique_tag]
                    if not ck.expect(q.mdef == g.mdef, 'list_is_converted_one_by_one', got=q.mdef, want=g.mdef, **l2):
                        continue
                    if g is not h:
                        ck.expect(exports(q) == exports(g), 'list_is_converted_one_by_one', got=exports(q), want=exports(g), mdef=g.mdef, **l2)

            # -- galaxies
            for gm in ('SIS', 'GNFW'):
                with ck.scenario('galaxies:' + gm):
                    okr = type(real).from_halos([b.halos[i] for i in cdm], real.lens_cosmo, {}, True, None, None, None, real.geometry)
                    bb = Before(okr)
                    ms = sorted(h.mass for h in bb.halos)
                    thr = float(rng.choice([ms[0], ms[-1], ms[len(ms) // 2], ms[-1] * 2, 10 ** rng.uniform(6, 9)]))
                    new = RealizationExtensions(okr).SIS_injection(thr, gm)
                    ch = [i for i, h in enumerate(bb.halos) if h.mass >= thr]
                    ck.case(dict(op='galaxy' + gm, thr=thr, **lab), len(ch) > 0)
                    judge(ck, bb, new, ch, [gm], op=gm, thr=thr, **lab)
                    for i in ch[:5]:
                        g, d = new.halos[i], bb.info[i]
                        p = g.lenstronomy_params[0][0]
                        if gm == 'SIS':
                            ds, dls = (w.ap.angular_diameter_distance(w.zs).value, w.ap.angular_diameter_distance_z1z2(g.z, w.zs).value)
                            th = 4 * np.pi * (0.646 * d['vmax'] / 299792.458) ** 2 * dls / ds * 206264.806
                            ck.close(p['theta_E'], th, 'isothermal_sphere_of_the_halo', rtol=3e-3, **lab)

    # -- pooled statistics
    for name in sorted(set(t[3] for t in tails)):
        x = [t for t in tails if t[3] == name]
        for p in sorted(set(t[2] for t in x)):
            y = [t for t in x if t[2] == p]
            s, m = int(sum(t[0] for t in y)), int(sum(t[1] for t in y))
            pv = min(stats.binom.cdf(s, m, p), stats.binom.sf(s - 1, m, p))
            ck.expect(pv > 1e-8, 'selected_fraction', group=name, p=p, selected=s, of=m, pvalue=pv)
    ck.note('random_selections', len(tails))
    if len(pulls) > 30:
        q = float(stats.kstest(pulls, 'norm').pvalue)
        ck.expect(q > 1e-7, 'scatter_of_timescales', pvalue=q, mean=float(np.mean(pulls)), std=float(np.std(pulls)), n=len(pulls))
    ck.note('scattered_timescales', len(pulls))

    # -- hybrid profiles are the weighted sum
    rh = rng_for('C12h')
    for k in range(60 if THOROUGH else 12):
        with ck.scenario('hybrid', k=k):
            w = World(rh)
            s = w.spec('HYBRID', rng=rh)
            h = w.make(s)
            r = np.array([0.1, 0.5, 1.5, 6.0])
            a = s['args']['w']
            ck.case(dict(op='hybrid', w=a, m=s['mass']))
            ref = (1 - a) * h.tnfw_halo.density_profile_3d_lenstronomy(r) + a * h.tnfwc_halo.density_profile_3d_lenstronomy(r)
            ck.close(h.density_profile_3d_lenstronomy(r), ref, 'hybrid_is_the_weighted_sum', rtol=1e-6)
            p, q = h.lenstronomy_params[0]
            ck.close([p['alpha_Rs'], q['alpha_Rs']], [(1 - a) * h.tnfw_halo.lenstronomy_params[0][0]['alpha_Rs'],
                                                     a * h.tnfwc_halo.lenstronomy_params[0][0]['alpha_Rs']], 'hybrid_is_the_weighted_sum', rtol=1e-6)
    presets(ck)


def presets(ck):
    """a preset of self-interacting dark matter is the collisionless realization of the same draw with some halos changed"""
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.sidm import SIDM_core_collapse, SIDM_parametric, SIDM_parametric_fixedbins
    rng = rng_for('C12p')
    for k in range(12 if THOROUGH else 3):
        if ck.out_of_time():
            break
        zl, zs = round(float(rng.uniform(0.3, 0.7)), 2), round(float(rng.uniform(1.2, 2.2)), 2)
        base = dict(sigma_sub=float(rng.uniform(0.01, 0.04)), log_mlow=7.0, log_mhigh=9.8, cone_opening_angle_arcsec=4.0,
                    LOS_normalization=float(rng.uniform(0.2, 0.8)), log_m_host=float(rng.uniform(12.9, 13.4)),
                    truncation_model_subhalos='TRUNCATION_R50' if k % 2 else 'TRUNCATION_GALACTICUS',
                    geometry_type=['DOUBLE_CONE', 'CYLINDER'][k % 2])
        for name in ('collapse', 'parametric', 'fixedbins'):
            with ck.scenario('preset:' + name, k=k, zl=zl, zs=zs, **base):
                seed_global('C12', k, name)
                cdm = CDM(zl, zs, **base)
                seed_global('C12', k, name)
                edge = 8.1 if name != 'fixedbins' else 8.0
                ev = bool(rng.integers(0, 2))
                if name == 'collapse':
                    ps, pf = [0.0, 1.0], [1.0, 0.0]
                    sidm = SIDM_core_collapse(zl, zs, [[6.0, edge], [edge, 10.0]], [[6.0, edge], [edge, 10.0]], ps, pf, x_core_halo=0.07, **base)
                elif name == 'parametric':
                    sidm = SIDM_parametric(zl, zs, [[6.0, edge], [edge, 10.0]], [4.0, -3.0], evolving_SIDM_profile=ev, x_core_halo=0.07, **base)
                else:
                    sidm = SIDM_parametric_fixedbins(zl, zs, -3.0, 4.0, evolving_profile=ev, x_core_halo=0.07, **base)
                lab = dict(preset=name, zl=zl, zs=zs, ev=ev, halos=len(cdm.halos))
                ck.case(lab, len(cdm.halos) > 3)
                a, b = {h.unique_tag: h for h in cdm.halos}, {h.unique_tag: h for h in sidm.halos}
                ck.expect(len(cdm.halos) == len(sidm.halos) and set(a) == set(b), 'preset_keeps_the_draw', got=len(sidm.halos), **lab)
                for t in set(a) & set(b):
                    h, g = a[t], b[t]
                    ck.expect((h.mass, h.x, h.y, h.z, h.is_subhalo) == (g.mass, g.x, g.y, g.z, g.is_subhalo), 'preset_keeps_the_draw', **lab)
                    light = np.log10(h.mass) < edge
                    if name == 'collapse':
                        want = (not light) if h.is_subhalo else light
                    else:
                        want = light if name == 'parametric' else not light
                    ck.expect((g.mdef == 'TNFWC') == bool(want) and h.mdef == 'TNFW', 'preset_changes_the_selected_halos', mass=h.mass, sub=h.is_subhalo,
                              got=g.mdef, **lab)


if __name__ == '__main__':
    vf.main('C12', RULE, body)
