import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import copy
import numpy as np
from vf import THOROUGH, rng_for, seed_global
from worlds import World
from C14 import frozen

RULE = ('random lens systems (macromodel, halos in front of and behind it, cosmology, image positions, options) whose light paths, convergence maps and masks are '
        'compared with an independent summation over the deflectors; a case is one call with its system')
ROUNDS = 30 if THOROUGH else 3


def deflection(name, k, x, y):
    """reduced deflection of one component, closed form"""
    dx, dy = x - k.get('center_x', k.get('ra_0', 0.0)), y - k.get('center_y', k.get('dec_0', 0.0))
    if name == 'SIS':
        r = np.hypot(dx, dy)
        return k['theta_E'] * dx / r, k['theta_E'] * dy / r
    if name == 'POINT_MASS':
        r2 = dx ** 2 + dy ** 2
        return k['theta_E'] ** 2 * dx / r2, k['theta_E'] ** 2 * dy / r2
    if name == 'SHEAR':
        return k['gamma1'] * dx + k['gamma2'] * dy, k['gamma2'] * dx - k['gamma1'] * dy
    if name == 'CONVERGENCE':
        return k['kappa'] * dx, k['kappa'] * dy
    from lenstronomy_standin import _PROFILES
    return _PROFILES[name]().derivatives(x, y, **k)


class Rays(object):
    """comoving positions of rays: x(z) = T(z) theta - sum over deflectors in front of z of T(z_i, z) alpha_i T_s / T(z_i, z_s)"""

    def __init__(self, names, zl, kws, ap, zs):
        o = np.argsort(zl, kind='stable')
        self.parts = [(names[i], float(zl[i]), kws[i]) for i in o]
        self.ap, self.zs, self.cache = ap, zs, {}

    def T(self, z):
        z = float(z)
        if z not in self.cache:
            self.cache[z] = self.ap.comoving_transverse_distance(z).value if z > 0 else 0.0
        return self.cache[z]

    def bends(self, tx, ty):
        """[(redshift, angle_x, angle_y)]: unreduced angles"""
        out = []
        planes = sorted(set(p[1] for p in self.parts))
        for zp in planes:
            if zp >= self.zs:
                continue
            x, y = self.at(tx, ty, zp, out)
            T = self.T(zp)
            ax = ay = 0.0
            for name, z, k in self.parts:
                if z == zp:
                    a = deflection(name, k, x / T, y / T)
                    ax, ay = ax + a[0], ay + a[1]
            f = self.T(self.zs) / (self.T(self.zs) - T)
            out.append((zp, ax * f, ay * f))
        return out

    def at(self, tx, ty, z, bends):
        T = self.T(z)
        x, y = T * tx, T * ty
        for zp, ax, ay in bends:
            if zp < z:
                x, y = x - (T - self.T(zp)) * ax, y - (T - self.T(zp)) * ay
        return x, y

    def source(self, tx, ty):
        x, y = self.at(tx, ty, self.zs, self.bends(tx, ty))
        return x / self.T(self.zs), y / self.T(self.zs)


def system(rng, w, kind):
    names, zl, kws = [], [], []

    def add(n, z, **k):
        names.append(n), zl.append(float(z)), kws.append(k)
    if kind != 'empty':
        if kind != 'foreground':
            add('SIS', w.zl, theta_E=float(rng.uniform(0.5, 1.5)), center_x=float(rng.uniform(-0.1, 0.1)), center_y=float(rng.uniform(-0.1, 0.1)))
            add('SHEAR', w.zl, gamma1=float(rng.uniform(-0.1, 0.1)), gamma2=float(rng.uniform(-0.1, 0.1)))
        n = int(rng.integers(1, 12)) if kind in ('halos', 'foreground') else 0
        for _ in range(n):
            z = round(float(rng.uniform(0.05, w.zs - 0.05)), int(rng.choice([2, 2, 5]))) if rng.integers(0, 3) else w.zl
            p = dict(center_x=float(rng.uniform(-1.5, 1.5)), center_y=float(rng.uniform(-1.5, 1.5)))
            t = int(rng.integers(0, 3))
            if t == 0:
                add('SIS', z, theta_E=float(rng.uniform(0.001, 0.05)), **p)
            elif t == 1:
                add('POINT_MASS', z, theta_E=float(rng.uniform(0.001, 0.05)), **p)
            else:
                add('CONVERGENCE', z, kappa=float(rng.uniform(-0.03, 0.03)))
        o = rng.permutation(len(names))
        names, zl, kws = [names[i] for i in o], [zl[i] for i in o], [kws[i] for i in o]
    return names, zl, kws


def paths(ck, rng, w, i, kind):
    from lenstronomy.LensModel.lens_model import LensModel
    from pyHalo.utilities import interpolate_ray_paths, compute_comoving_ray_path
    names, zl, kws = system(rng, w, kind)
    zs = w.zs if rng.integers(0, 2) else round(w.zs - float(rng.uniform(0, 0.01)), 5)
    lm = LensModel(names, z_source=zs, multi_plane=True, lens_redshift_list=zl, cosmo=w.ap)
    n = int(rng.choice([1, 1, 2, 4]))
    px, py = rng.uniform(-1.3, 1.3, n), rng.uniform(-1.3, 1.3, n)
    if rng.integers(0, 2):
        px, py = list(px), list(py)
    end, mean = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    sx, sy = (float(rng.uniform(-0.3, 0.3)), float(rng.uniform(-0.3, 0.3))) if end else (None, None)
    lab = dict(world=i, kind=kind, planes=zl, zs=zs, n=n, terminate=end, mean=mean)
    ck.case(dict(case='path', **lab))
    rays = Rays(names, zl, kws, w.ap, zs)
    snap = frozen((names, zl, kws, px, py))
    nodes = np.unique(np.concatenate([zl, [zs], np.linspace(0.02, zs - 0.02, 50)]))
    D = np.array([w.cosmo.D_C_transverse(z) for z in nodes], float)
    want = []
    for a, b in zip(px, py):
        bends = rays.bends(a, b)
        xy = np.array([rays.at(a, b, z, bends) for z in nodes]).T / np.array([rays.T(z) for z in nodes])
        xy = np.concatenate([[[a], [b]], xy], axis=1)
        if end:
            xy[:, -1] = sx, sy
        want.append(xy)
    d0 = np.append(0, D)
    scale = 2e-4 * (1 + np.max(np.abs(want)))
    kw = dict(terminate_at_source=end, source_x=sx, source_y=sy) if end else {}
    default_cosmo = w.default_cosmology
    if not default_cosmo or rng.integers(0, 2):
        kw['cosmo'] = w.cosmo
    with ck.scenario('ray_path', **lab):
        k = int(rng.integers(0, n))
        x, y, d = compute_comoving_ray_path(px[k], py[k], lm, kws, zs, **kw)
        ck.expect(len(x) == len(y) == len(d) and x[0] == y[0] == d[0] == 0 and np.all(np.diff(d) > -1e-6), 'path_starts_at_the_observer_and_goes_outwards', **lab)
        ck.close(d[-1], rays.T(zs), 'path_ends_at_the_source', rtol=5e-4, **lab)
        for z in sorted(set(zl + [zs])):
            if z > zs:
                continue
            j = int(np.argmin(np.abs(d - rays.T(z))))
            if not ck.close(d[j], rays.T(z), 'path_has_a_point_on_every_plane', rtol=5e-4, atol=0.05, z=z, **lab):
                continue
            q = int(np.argmin(np.abs(nodes - z))) + 1
            ck.close([x[j] / d[j], y[j] / d[j]], want[k][:, q], 'path_follows_the_rays', rtol=0, atol=scale, z=z, **lab)
        if end:
            ck.close([x[-1] / d[-1], y[-1] / d[-1]], [sx, sy], 'path_ends_at_the_given_source', rtol=1e-9, **lab)
    with ck.scenario('interpolate', **lab):
        fx, fy = interpolate_ray_paths(px, py, lm, kws, zs, **kw)
        if not ck.expect(len(fx) == len(fy) == n, 'one_path_per_image', got=[len(fx), len(fy)], **lab):
            return
        probe = np.sort(np.concatenate([rng.uniform(0, d0[-1], 25), d0]))
        for k in range(n):
            got = np.array([fx[k](probe), fy[k](probe)])
            ref = np.array([np.interp(probe, d0, want[k][0]), np.interp(probe, d0, want[k][1])])
            ck.close(got, ref, 'interpolated_path', rtol=0, atol=scale, image=k, **lab)
            ck.close([fx[k](0.), fy[k](0.)], [px[k], py[k]], 'path_leaves_in_the_observed_direction', rtol=1e-9, atol=1e-12, **lab)
            first = min([z for z in zl if z < zs] + [zs])
            front = probe[probe <= w.cosmo.D_C_transverse(first) * (1 - 1e-9)] if not (end and first == zs) else probe[probe < d0[-2]]
            if len(front):
                ck.close([fx[k](front), fy[k](front)], [np.full(len(front), px[k]), np.full(len(front), py[k])], 'straight_without_deflectors', rtol=0, atol=1e-6, **lab)
            bx, by = lm.ray_shooting(np.array([px[k]]), np.array([py[k]]), kws)
            end_point = [sx, sy] if end else [bx[0], by[0]]
            ck.close([fx[k](d0[-1]), fy[k](d0[-1])], end_point, 'path_ends_at_the_source', rtol=0, atol=scale, image=k, **lab)
        if mean:
            mx, my = interpolate_ray_paths(px, py, lm, kws, zs, evaluate_at_mean=True, **kw)
            ck.expect(len(mx) == len(my) == 1, 'one_mean_path', got=[len(mx), len(my)], **lab)
            zm = np.linspace(0, zs, 100)
            dm = np.array([0.0 if z == 0 else w.cosmo.D_C_transverse(z) for z in zm], float)
            node = np.array([np.mean([np.interp(dm, d0, q[c]) for q in want], axis=0) for c in (0, 1)])
            ck.close([mx[0](dm), my[0](dm)], node, 'mean_path', rtol=0, atol=scale, **lab)
            t = rng.uniform(0, dm[-1], 20)
            ref = np.array([np.interp(t, dm, node[0]), np.interp(t, dm, node[1])])
            ck.close([mx[0](t), my[0](t)], ref, 'mean_path', rtol=0, atol=scale, between=True, **lab)
    ck.expect(snap == frozen((names, zl, kws, px, py)), 'arguments_are_not_changed', **lab)


def effective_kappa(rays, x, y):
    e = 2e-4
    ax, _ = rays.source(x + e, y)
    bx, _ = rays.source(x - e, y)
    _, ay = rays.source(x, y + e)
    _, by = rays.source(x, y - e)
    return 1 - 0.5 * ((ax - bx) + (ay - by)) / (2 * e)


def maps(ck, rng, w, i):
    from pyHalo.utilities import multiplane_convergence
    halos = []
    for _ in range(int(rng.integers(0, 6))):
        s = w.spec(str(rng.choice(['TNFW_FIELD', 'NFW_FIELD', 'TNFW_SUB'])), rng=rng)
        s['x'], s['y'] = float(rng.uniform(-0.6, 0.6)), float(rng.uniform(-0.6, 0.6))
        halos.append(s)
    real = w.realization(halos)
    npix, size = int(rng.integers(3, 8)), float(rng.uniform(0.8, 3))
    kw = {}
    macro = ['EPL', 'SHEAR'], [{'theta_E': 1.0, 'center_x': 0.0, 'center_y': 0.0, 'e1': 0.1, 'e2': -0.1, 'gamma': 2.0}, {'gamma1': 0.05, 'gamma2': 0.02}], [w.zl] * 2
    own = rng.integers(0, 2)
    if own:
        macro = (['SIS', 'SHEAR'], [dict(theta_E=float(rng.uniform(0.5, 1.2)), center_x=0.031, center_y=-0.02), dict(gamma1=0.04, gamma2=-0.05)], [w.zl] * 2)
        kw = dict(lens_model_list_macro=macro[0], kwargs_lens_macro=macro[1], redshift_list_macro=macro[2])
    if rng.integers(0, 2):
        kw.update(cone_opening_angle_arcsec=size, npix=npix)
    else:
        kw.update(npix=npix)
        size = 2.5
    lab = dict(world=i, n=len(halos), npix=npix, window=size, own=bool(own), zl=w.zl, zs=w.zs)
    ck.case(dict(case='map', **lab))
    snap = frozen(macro)
    with ck.scenario('convergence_map', **lab):
        out = multiplane_convergence(real, **kw)
        ck.expect(len(out) == 5 and np.shape(out[0]) == (npix, npix), 'shape_of_the_map', shape=np.shape(out[0]), **lab)
        names, zz, kws, _ = real.lensing_quantities()
        full = (list(macro[0]) + list(names), list(macro[2]) + list(zz), list(macro[1]) + list(kws))
        ck.expect(list(out[1].lens_model_list) == full[0] and list(out[3].lens_model_list) == list(macro[0]), 'lens_model_of_the_map', **lab)
        ck.expect(frozen(full[2]) == frozen(list(out[2])) and frozen(list(macro[1])) == frozen(list(out[4])),
                  'parameters_of_the_map', **lab)
        ck.expect(snap == frozen(macro), 'arguments_are_not_changed', **lab)
        rays = Rays(full[0], full[1], full[2], w.ap, w.zs)
        main = Rays(macro[0], macro[2], macro[1], w.ap, w.zs)
        ax = np.linspace(-size / 2, size / 2, npix)
        bad = 0
        for r_ in range(npix):
            for c in range(npix):
                x, y = ax[c] , ax[r_]
                near = min([np.hypot(x - h["x"], y - h["y"]) for h in halos] + [np.hypot(x - macro[1][0]['center_x'], y - macro[1][0]['center_y'])])
                if near < 0.02:
                    continue
                want = effective_kappa(rays, x, y) - effective_kappa(main, x, y)
                ck.close(out[0][r_, c], want, 'convergence_map', rtol=2e-2, atol=3e-4, pixel=[r_, c], **lab)


def masks(ck, rng, i):
    from pyHalo.utilities import mask_annular
    n = int(rng.integers(3, 30))
    g = np.linspace(-1.5, 1.5, n)
    xx, yy = np.meshgrid(g, g + rng.uniform(-0.3, 0.3))
    if rng.integers(0, 3) == 0:
        xx, yy = xx.ravel(), yy.ravel()
    cx, cy, r0 = float(rng.uniform(-0.5, 0.5)), float(rng.uniform(-0.5, 0.5)), float(rng.choice([0, rng.uniform(0, 1.2)]))
    r1 = None if rng.integers(0, 2) else float(r0 + rng.uniform(0, 1))
    snap = xx.copy(), yy.copy()
    lab = dict(n=n, cx=cx, cy=cy, r_min=r0, r_max=r1)
    ck.case(dict(case='mask', **lab))
    with ck.scenario('mask', **lab):
        m = mask_annular(cx, cy, xx, yy, r0, r1) if r1 is not None else mask_annular(cx, cy, xx, yy, r0)
        R = np.hypot(xx - cx, yy - cy)
        want = (R > r0) & (R < (np.inf if r1 is None else r1))
        edge = (np.abs(R - r0) < 1e-9) | (np.abs(R - (r1 if r1 is not None else -1)) < 1e-9)
        ck.expect(np.shape(m) == xx.shape and np.array_equal(m[~edge], want[~edge].astype(float)), 'annular_mask', **lab)
        ck.expect(np.array_equal(snap[0], xx) and np.array_equal(snap[1], yy), 'arguments_are_not_changed', **lab)


def body(ck):
    from pyHalo.Cosmology.cosmology import Cosmology
    for i in range(16 * ROUNDS):
        if ck.out_of_time(0.8):
            break
        r = rng_for('world', i)
        seed_global('world', i)
        w = World(r)
        w.default_cosmology = i % 3 == 0
        if w.default_cosmology:          # the functions use the default cosmology when none is given
            w.cosmo = Cosmology()
            w.ap = w.cosmo.astropy
        for kind in ('empty', 'macro', 'halos', 'halos', 'foreground'):
            paths(ck, r, w, i, kind)
        for _ in range(10):
            masks(ck, r, i)
        if not w.default_cosmology:
            maps(ck, r, w, i)


if __name__ == '__main__':
    vf.main('C19', RULE, body)
