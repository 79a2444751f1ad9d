import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from scipy import stats
from vf import THOROUGH, rng_for, seed_global
import refs

RULE = ('densities, cumulative distributions, pixel maps and spatial models with random shape, domain and size (including 0 and 1); a case is one '
        'call of a sampler, judged on the number, domain and distribution of what it returned')
ROUNDS = 6 if THOROUGH else 1


class Pool(object):
    """probability integral transforms pooled over the configurations of one sampler"""

    def __init__(self):
        self.u = {}

    def add(self, name, u):
        self.u.setdefault(name, []).append(np.atleast_1d(np.asarray(u, float)))

    def judge(self, ck):
        for name, v in sorted(self.u.items()):
            v = np.concatenate(v)
            ck.note('pooled_' + name, int(len(v)))
            if len(v) < 200:
                continue
            d = float(stats.kstest(v, 'uniform').statistic)
            ck.expect(d < (0.006 if name.startswith('host_radius') else 0.0015) + 2.95 / np.sqrt(len(v)), 'pooled:' + name, ks=d, n=len(v), mean=float(v.mean()))


def uniform(ck, u, key, syst=0.0, **d):
    """u is uniform in (0, 1), up to a systematic error syst of the distribution function"""
    u = np.asarray(u, float)
    if len(u) < 5:
        return
    ks = float(stats.kstest(u, 'uniform').statistic)
    ck.expect(ks < syst + 2.95 / np.sqrt(len(u)), key, ks=ks, syst=syst, used=len(u), mean=float(u.mean()), **d)


def angle(x, y):
    return (np.arctan2(y, x) / (2 * np.pi)) % 1.0


def independent(ck, a, b, key, **d):
    """two uniform variates are independent: joint 4 x 4 table, and the correlation of each with the other and its modulations"""
    n = len(a)
    if n < 400:
        return
    t = np.histogram2d(a, b, bins=4, range=[[0, 1], [0, 1]])[0]
    if t.sum(0).min() < 20 or t.sum(1).min() < 20:
        return
    p = stats.chi2_contingency(t)[1]
    ck.expect(p > 1e-8, key, pvalue=p, used=n, **d)


def density_1d(r):
    """(name, function of x and args, domain) with analytic or numerically integrated distribution function"""
    k = int(r.integers(6))
    if k == 0:
        a, lo = r.uniform(-2.5, 2.5), 10 ** r.uniform(-1, 1)
        return 'power', lambda x, p: x ** p, (a,), lo, lo * 10 ** r.uniform(0.2, 0.8)
    if k == 1:
        m, s = r.uniform(-3, 3), r.uniform(0.3, 2)
        return 'normal', lambda x, m, s: np.exp(-0.5 * ((x - m) / s) ** 2), (m, s), m - r.uniform(0.5, 4) * s, m + r.uniform(0.5, 4) * s
    if k == 2:
        m1, m2, f = r.uniform(-6, -2), r.uniform(2, 6), r.uniform(0.1, 3)
        return 'two peaks', lambda x, f: np.exp(-(x - m1) ** 2) + f * np.exp(-(x - m2) ** 2), (f,), -9., 9.
    if k == 3:
        e = r.uniform(0.2, 3)
        return 'exponential', lambda x, e: 1e-7 * np.exp(-x / e), (e,), 0.0, r.uniform(1, 4)
    if k == 4:
        a = r.uniform(0.2, 0.8)
        return 'step', lambda x, a: np.where(x < a, 3e9, 1e9), (a,), 0.0, 1.0
    return 'flat', lambda x: np.ones_like(x), (), *sorted(r.uniform(-5, 5, 2))


def cdf_of(f, args, lo, hi, n=200001):
    x = np.linspace(lo, hi, n)
    y = f(x, *args)
    c = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]))])
    return lambda t: np.interp(t, x, c / c[-1])


def one_dimensional(ck, pool):
    from pyHalo.utilities import inverse_transform_sampling, inverse_transform_sampling_from_cdf, ITSampling
    r = rng_for('1d')
    for i in range(160 * ROUNDS):
        if ck.out_of_time(0.25):
            break
        name, f, args, lo, hi = density_1d(r)
        if hi - lo < 1e-2:
            continue
        npix = int(10 ** r.uniform(2.3, 4))
        n = int(r.choice([0, 1, 2, 7, 400, 5000, 20000]))
        x = np.linspace(lo, hi, npix)
        ref = cdf_of(f, args, lo, hi)
        # the cumulative sum resolves the distribution function to the content of one cell
        syst = float(np.max(np.diff(ref(x)))) * 1.5 + 1e-4
        lab = dict(density=name, args=list(args), lo=lo, hi=hi, npix=npix, n=n)
        seed_global('1d', i)
        x0 = x.copy()
        with ck.scenario('inverse_transform_sampling', **lab):
            s = np.asarray(inverse_transform_sampling(x, f, args, n))
            ck.case(dict(lab, sampler='function'), n > 0)
            ck.expect(s.shape == (n,), 'number_of_samples', got=list(s.shape), want=n, **lab)
            ck.expect(np.array_equal(x, x0), 'the_domain_given_is_not_modified', **lab)
            if n:
                ck.expect(s.min() >= lo and s.max() <= hi, 'samples_stay_in_the_domain', smin=s.min(), smax=s.max(), **lab)
                uniform(ck, ref(s), 'samples_follow_the_density', syst, **lab)
                if syst < 2e-3:
                    pool.add('function', ref(s)[:2000])
        # a cumulative distribution on any grid
        grid = np.sort(np.concatenate([[lo, hi], r.uniform(lo, hi, int(10 ** r.uniform(0.1, 2.5)))]))
        grid = grid[np.concatenate([[True], np.diff(grid) > 1e-9 * (hi - lo)])]
        offset = r.choice([0.0, r.uniform(0, 0.5)])
        cdf = (offset + (1 - offset) * ref(grid)) * 10 ** r.uniform(-8, 8)
        keep = np.concatenate([[True], np.diff(cdf) > 1e-12 * cdf[-1]])
        grid, cdf = grid[keep], cdf[keep]
        if len(grid) < 3:
            continue
        for which in ('from_cdf', 'ITSampling'):
            g0, c0 = grid.copy(), cdf.copy()
            with ck.scenario(which, **lab):
                if which == 'from_cdf':
                    s = inverse_transform_sampling_from_cdf(grid, cdf, n)
                else:
                    it = ITSampling(grid, cdf)
                    s = it(n)
                    if n == 1:
                        ck.expect(np.ndim(s) == 0, 'a_single_sample_is_a_number', got=repr(s), **lab)
                    s = np.atleast_1d(s)
                ck.case(dict(lab, sampler=which), n > 0)
                s = np.asarray(s)
                ck.expect(s.shape == (n,), 'number_of_samples', got=list(s.shape), want=n, which=which, **lab)
                ck.expect(np.array_equal(grid, g0) and np.array_equal(cdf, c0), 'the_cdf_given_is_not_modified', which=which, **lab)
                if n:
                    ck.expect(s.min() >= grid[0] and s.max() <= grid[-1], 'samples_stay_in_the_domain', smin=s.min(), smax=s.max(), which=which, **lab)
                    u = (np.interp(s, grid, cdf) - cdf[0]) / (cdf[-1] - cdf[0])
                    uniform(ck, u, 'samples_follow_the_cumulative_distribution', which=which, **lab)
                    pool.add(which, u[:2000])
                    # successive samples are independent of each other
                    if n >= 5000:
                        independent(ck, u[::2][:n // 2], u[1::2][:n // 2], 'successive_samples_are_independent', which=which, **lab)


def from_samples(ck):
    from pyHalo.utilities import ITSampling
    r = rng_for('samples')
    for i in range(48 * ROUNDS):
        k = i % 4
        n0 = int(10 ** r.uniform(3.3, 4.5))
        if k == 0:
            data = r.normal(r.uniform(-20, 20), 10 ** r.uniform(-2, 2), n0)
        elif k == 1:
            data = r.uniform(*sorted(r.uniform(-3, 3, 2)), n0)
        elif k == 2:
            data = r.exponential(10 ** r.uniform(-2, 2), n0)
        else:
            data = np.concatenate([r.normal(-4, 0.7, n0 // 3), r.normal(3, 1.2, n0 - n0 // 3)])
        n = int(r.choice([0, 1, 3, 4000, 20000]))
        lab = dict(kind=['normal', 'uniform', 'exponential', 'mixture'][k], n_data=n0, n=n)
        seed_global('samples', i)
        d0 = data.copy()
        with ck.scenario('from_samples', **lab):
            s = np.atleast_1d(ITSampling.from_samples(data)(n))
            ck.case(dict(lab, sampler='from_samples'), n > 0)
            ck.expect(s.shape == (n,), 'number_of_samples', got=list(s.shape), want=n, which='from_samples', **lab)
            ck.expect(np.array_equal(data, d0), 'the_samples_given_are_not_modified', **lab)
            if n:
                w = (data.max() - data.min()) / 150
                ck.expect(s.min() >= data.min() and s.max() <= data.max(), 'samples_stay_in_the_domain', which='from_samples', smin=s.min(), smax=s.max(),
                          **lab)
                if n >= 4000:
                    # the histogram resolves the distribution to one bin
                    t = np.sort(data)
                    f = lambda v: np.searchsorted(t, v, side='right') / len(t)
                    slack = 1.5 * float(np.max(np.histogram(data, bins=150)[0])) / len(data)
                    q = np.linspace(data.min(), data.max(), 300)
                    got = np.searchsorted(np.sort(s), q, side='right') / n
                    d = float(np.max(np.abs(got - f(q))))
                    ck.expect(d < slack + 2.95 / np.sqrt(n), 'samples_follow_the_given_samples', ks=d, slack=slack, width=w, **lab)


def pixels(ck, pool):
    from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    cosmo = Cosmology()
    r = rng_for('2d')
    for i in range(120 * ROUNDS):
        if ck.out_of_time(0.6):
            break
        zl = r.uniform(0.2, 1.0)
        zs = zl + r.uniform(0.5, 2.0)
        geo = Geometry(cosmo, zl, zs, r.uniform(3, 10), str(r.choice(['DOUBLE_CONE', 'CYLINDER', 'CONE'])))
        z = float(r.choice([zl, r.uniform(0.05, zs - 0.05)]))
        s = int(r.integers(2, 60))
        rmax = 10 ** r.uniform(-1.3, 1)
        g = np.linspace(-1, 1, s)
        X, Y = np.meshgrid(g, g)
        kind = int(r.integers(5))
        if kind == 0:
            den = np.exp(-3 * ((X - r.uniform(-1, 1)) ** 2 + 2 * (Y - r.uniform(-1, 1)) ** 2))
        elif kind == 1:
            den = r.uniform(0, 1, (s, s)) ** 3
        elif kind == 2:
            den = np.where(X + 0.5 * Y > r.uniform(-0.5, 0.5), 2.0, 0.0)
        elif kind == 3:
            den = np.zeros((s, s))
            den[int(r.integers(s)), int(r.integers(s))] = 1.0
        else:
            den = 1.5 + X
        den = den * 10 ** r.uniform(-12, 12)
        if den.sum() == 0:
            den = np.zeros((s, s))
        n = int(r.choice([0, 1, 50, 20000, 40000]))
        smooth = float(r.choice([0.0, 0.0, 1.0, r.uniform(0.1, 3)]))
        sx, sy = (0.0, 0.0) if r.uniform() < 0.3 else (float(r.uniform(-3, 3)), float(r.uniform(-3, 3)))
        kpa = geo.kpc_per_arcsec(z)
        lab = dict(z=z, pixels=s, rmax=rmax, kind=kind, n=n, smooth=smooth, shift=[sx, sy])
        seed_global('2d', i)
        with ck.scenario('Correlated2D', **lab):
            model = Correlated2D(geo) if smooth == 1.0 else Correlated2D(geo, smooth)
            if not den.sum() > 0:
                try:
                    model.draw(n, rmax, den, z)
                    ck.fail('a_map_that_cannot_be_normalized_is_refused', **lab)
                except Exception:
                    ck.count('a_map_that_cannot_be_normalized_is_refused')
                continue
            d0 = den.copy()
            x, y = model.draw(n, rmax, den, z, sx, sy)
            ck.case(dict(lab, sampler='Correlated2D'), n > 0)
            x, y = np.atleast_1d(x), np.atleast_1d(y)
            ck.expect(len(x) == n and len(y) == n, 'number_of_points', got=[len(x), len(y)], **lab)
            ck.expect(np.array_equal(den, d0), 'the_density_given_is_not_modified', **lab)
            ck.close(kpa, refs.kpa(cosmo.astropy, z), 'kpc_per_arcsec_of_the_plane', rtol=3e-4 / z + 3e-4, **lab)
            if n == 0:
                continue
            x, y = x / kpa - sx, y / kpa - sy
            grid = np.linspace(-rmax, rmax, s)
            pix = 2 * rmax / (s - 1)
            if smooth == 0.0:
                ix, iy = np.round((x + rmax) / pix).astype(int), np.round((y + rmax) / pix).astype(int)
                inside = (ix >= 0) & (ix < s) & (iy >= 0) & (iy < s)
                if not ck.expect(inside, 'points_lie_in_the_map', outside=int((~inside).sum()), **lab):
                    continue
                off = np.maximum(np.abs(x - grid[ix]), np.abs(y - grid[iy])) / pix
                ck.expect(off < 1e-6, 'points_lie_on_the_pixels', off=float(off.max()), **lab)
                ck.expect(den[iy, ix] > 0, 'no_point_where_the_density_is_zero', n_bad=int((den[iy, ix] <= 0).sum()), **lab)
                counts = np.zeros((s, s))
                np.add.at(counts, (iy, ix), 1)
                want = den / den.sum() * n
                big = want > 8
                if big.sum() > 1:
                    obs = np.append(counts[big], counts[~big].sum())
                    exp = np.append(want[big], want[~big].sum())
                    if exp[-1] < 8:
                        j = int(np.argmax(exp[:-1]))
                        obs[j], exp[j] = obs[j] + obs[-1], exp[j] + exp[-1]
                        obs, exp = obs[:-1], exp[:-1]
                    if len(exp) > 1:
                        chi = float(np.sum((obs - exp) ** 2 / exp))
                        p = float(stats.chi2.sf(chi, len(exp) - 1))
                        ck.expect(p > 1e-9, 'points_follow_the_density_map', chi2=chi, bins=len(exp), p=p, **lab)
            else:
                sig = smooth * rmax / s
                reach = 7 * sig
                ck.expect((np.abs(x) < rmax + reach) & (np.abs(y) < rmax + reach), 'points_lie_in_the_map', n_bad=1, **lab)
                # the marginal distributions: pixels convolved with a Gaussian of the smoothing length
                for v, m, nm in ((x, den.sum(0), 'x'), (y, den.sum(1), 'y')):
                    m = m / m.sum()
                    u = (m[None, :] * stats.norm.cdf((v[:4000, None] - grid[None, :]) / sig)).sum(1)
                    uniform(ck, u, 'smoothed_points_follow_the_density_map', axis=nm, **lab)
                    pool.add('smoothed_' + nm, u[:500])


def host_halo(ck, pool):
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Cosmology.cosmology import Cosmology
    r = rng_for('nfw')
    lens = {}
    for i in range(48 * ROUNDS):
        if ck.out_of_time(0.85):
            break
        zl, zs = [(0.5, 1.5), (0.25, 2.0), (0.8, 3.0)][i % 3]
        if (zl, zs) not in lens:
            lens[(zl, zs)] = LensCosmo(zl, zs, Cosmology())
        lc = lens[(zl, zs)]
        m = 10 ** r.uniform(12, 14.5)
        c = r.uniform(2.5, 12)
        core = float(r.choice([0.05, r.uniform(0.1, 1.5)]))
        n = int(r.choice([0, 1, 2, 3000, 8000]))
        lab = dict(z_lens=zl, log_m=float(np.log10(m)), c_host=c, core=core, n=n)
        seed_global('nfw', i)
        with ck.scenario('ProjectedNFW', **lab):
            kpa = lc.cosmo.kpc_proper_per_asec(zl)
            _, rs_mpc, r200_mpc = lc.nfwParam_physical(m, c, zl)
            rs, r200 = rs_mpc * 1e3 / kpa, r200_mpc * 1e3 / kpa
            # the host: 200 times the critical density at the lens
            ap = lc.cosmo.astropy
            rho_c = ap.critical_density(zl).to('Msun/kpc3').value
            r200_ref = (3 * m / (4 * np.pi * 200 * rho_c)) ** (1 / 3) / refs.kpa(ap, zl)
            rmax2d = r.uniform(0.01, 0.6) * r200_ref
            lab['rmax2d'] = rmax2d
            model = ProjectedNFW.from_Mhost(m, zl, rmax2d, core, lc, c)
            x, y, r3 = model.draw(n)
            x, y, r3 = np.atleast_1d(x), np.atleast_1d(y), np.atleast_1d(r3)
            ck.case(dict(lab, sampler='ProjectedNFW'), n > 0)
            ck.expect(len(x) == n and len(y) == n and len(r3) == n, 'number_of_points', got=[len(x), len(y), len(r3)], **lab)
            ck.close(r200, r200_ref, 'virial_radius_of_the_host', rtol=3e-3, **lab)
            if n == 0:
                continue
            kref = refs.kpa(ap, zl)
            R = np.hypot(x, y) / kref
            rr = r3 / kref
            rsr = r200_ref / c
            ck.expect(R <= rmax2d * 1.003, 'projected_radius_within_the_aperture', worst=float(R.max()), **lab)
            ck.expect(rr <= r200_ref * 1.003, 'radius_within_the_virial_radius', worst=float(rr.max()), r200=r200_ref, **lab)
            ck.expect((rr > 0) & np.isfinite(rr), 'radius_within_the_virial_radius', worst=float(rr.min()), **lab)
            b = core * rsr
            rho = lambda q: 1.0 / ((b + q) * (rsr + q) ** 2)
            t = np.concatenate([[0.0], np.geomspace(1e-4 * rmax2d, r200_ref, 4000)])
            y3 = rho(t) * t ** 2
            c3 = np.concatenate([[0.0], np.cumsum(0.5 * (y3[1:] + y3[:-1]) * np.diff(t))])
            u3 = np.interp(rr, t, c3 / c3[-1])
            uniform(ck, u3, 'radii_follow_the_cored_nfw_profile', 0.006, **lab)
            # projected profile by integrating along the line of sight
            R_ = np.concatenate([[1e-4 * rmax2d], np.geomspace(1e-3 * rmax2d, rmax2d, 250)])
            s = np.sinh(np.linspace(0, np.arcsinh(1e4 * rsr / R_), 600))   # path in units of R
            path = s * R_[None, :]
            d = rho(np.sqrt(R_[None, :] ** 2 + path ** 2))
            sig = np.sum(0.5 * (d[1:] + d[:-1]) * np.diff(path, axis=0), axis=0)
            y2 = sig * R_
            c2 = np.concatenate([[0.0], np.cumsum(0.5 * (y2[1:] + y2[:-1]) * np.diff(R_))])
            u2 = np.interp(R, R_, c2 / c2[-1])
            uniform(ck, u2, 'projected_radii_follow_the_cored_nfw_profile', 0.006, **lab)
            a = angle(x, y)
            uniform(ck, a, 'positions_are_isotropic', **lab)
            independent(ck, a, u2, 'angle_and_radius_are_independent', **lab)
            pool.add('host_angle', a)
            pool.add('host_radius', u3)
            pool.add('host_radius_projected', u2)
        # without a concentration the host follows the mass-concentration relation
        if i % 4 == 0:
            with ck.scenario('ProjectedNFW_default_concentration', **lab):
                ratio = []
                for _ in range(12):
                    p = ProjectedNFW.from_Mhost(m, zl, rmax2d, core, lc)
                    q = p.draw(60)
                    ck.expect(len(q[0]) == 60, 'number_of_points', **lab)
                    ck.expect(np.hypot(q[0], q[1]) <= 1.003 * rmax2d * kref, 'projected_radius_within_the_aperture', which='default c_host', **lab)
                    ck.expect(np.asarray(q[2]) <= 1.003 * r200_ref * kref, 'radius_within_the_virial_radius', which='default c_host', **lab)
                    ratio += list(np.asarray(q[2]) / (r200_ref * kref))
                from colossus.halo.concentration import concentration
                lc.cosmo.colossus
                c_med = float(concentration(m * ap.h, '200c', zl, model='diemer19'))
                med = []
                for cc in (c_med * 0.72, c_med / 0.72):
                    tt = np.linspace(0, 1, 4001)
                    w = tt ** 2 / ((core + tt * cc) * (1 + tt * cc) ** 2)
                    k = np.cumsum(w)
                    med.append(float(np.interp(0.5, k / k[-1], tt)))
                got = float(np.median(ratio))
                ck.expect(min(med) - 0.05 < got < max(med) + 0.05, 'default_concentration_of_the_host', got=got, between=med, **lab)


def uniform_models(ck, pool):
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    cosmo = Cosmology()
    ap = cosmo.astropy
    r = rng_for('uniform')
    for i in range(80 * ROUNDS):
        zl = r.uniform(0.2, 1.0)
        zs = zl + r.uniform(0.5, 2.0)
        theta = r.uniform(2, 15)
        shape = str(r.choice(['DOUBLE_CONE', 'CYLINDER', 'CONE']))
        geo = Geometry(cosmo, zl, zs, theta, shape)
        z = float(r.choice([zl, r.uniform(0.03, zs - 0.05), zl + 0.9 * (zs - zl)]))
        n = r.choice([0, 1, 2, 4000, 4000])
        n = int(n) if i % 3 else float(n)
        cx, cy = (0.0, 0.0) if r.uniform() < 0.4 else (float(r.uniform(-4, 4)), float(r.uniform(-4, 4)))
        cone = bool(i % 2)
        lab = dict(z=z, z_lens=zl, z_source=zs, theta=theta, geometry=shape, n=n, center=[cx, cy], cone=cone)
        seed_global('uniform', i)
        with ck.scenario('Uniform', **lab):
            if cone:
                x, y = LensConeUniform(theta, geo).draw(n, z, cx, cy) if i % 4 < 2 else LensConeUniform(theta, geo).draw(n, z, center_x=cx, center_y=cy)
                rmax = refs.Shape(ap, zl, zs, theta, shape).rmax_arcsec(z)
            else:
                rescale = float(r.choice([1.0, r.uniform(0.1, 2)]))
                rmax0 = r.uniform(0.1, 6)
                m = Uniform(rmax0, geo)
                x, y = m.draw(n, z, rescale=rescale, center_x=cx, center_y=cy)
                rmax = rmax0 * rescale
                lab.update(rescale=rescale, radius=rmax0)
                ck.expect(m.rmax2d_arcsec == rmax0, 'drawing_does_not_change_the_model', **lab)
            ck.case(dict(lab, sampler='Uniform'), n > 0)
            ck.expect(len(x) == n and len(y) == n, 'number_of_points', got=[len(x), len(y)], **lab)
            if n == 0:
                continue
            kpa = refs.kpa(ap, z)
            tol = 3e-4 / z + 3e-4
            dx, dy = np.asarray(x) / kpa - cx, np.asarray(y) / kpa - cy
            R = np.hypot(dx, dy)
            atol = tol * (abs(cx) + abs(cy) + rmax) + 2e-3 * rmax
            ck.expect(R <= rmax + atol, 'points_lie_in_the_aperture', worst=float(R.max()), rmax=rmax, **lab)
            if n > 100:
                slack = 4 * atol / rmax
                if slack < 0.03:
                    uniform(ck, np.clip((R / rmax) ** 2, 0, 1), 'points_are_uniform_in_area', slack, **lab)
                    uniform(ck, angle(dx, dy), 'positions_are_isotropic', slack, **lab)
                    independent(ck, angle(dx, dy), np.clip((R / rmax) ** 2, 0, 0.999999), 'angle_and_radius_are_independent', **lab)
                if cx == 0 and cy == 0 and z > 0.1:
                    pool.add('uniform_angle', angle(dx, dy))
                    pool.add('uniform_area', np.clip((R / rmax) ** 2, 0, 1))


def body(ck):
    pool = Pool()
    one_dimensional(ck, pool)
    from_samples(ck)
    pixels(ck, pool)
    host_halo(ck, pool)
    uniform_models(ck, pool)
    pool.judge(ck)


if __name__ == '__main__':
    vf.main('C16', RULE, body)
