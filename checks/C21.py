import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import numpy as np
from vf import THOROUGH, rng_for, seed_global

RULE = ('random smooth convergence maps, masks, separations and angles whose two-point correlation, multipoles, power spectra and power-law fits are compared with '
        'integrals of the closed form of the map; a case is one call with its map and options')
ROUNDS = 8 if THOROUGH else 1


class Field(object):
    """a smooth function of the plane with a closed form"""

    def __init__(self, rng, L, symmetric=False):
        self.c0 = float(rng.choice([0.0, rng.normal(0, 0.5)]))
        self.grad = np.zeros(2) if symmetric else rng.normal(0, 0.2, 2) * rng.integers(0, 2)
        self.blobs, self.waves = [], []
        for _ in range(int(rng.integers(1, 5))):
            c = np.zeros(2) if symmetric else rng.uniform(-0.4, 0.4, 2) * L
            self.blobs.append((float(rng.normal(0, 1)), c, float(rng.uniform(0.07, 0.3) * L)))
        for _ in range(0 if symmetric else int(rng.integers(0, 4))):
            lam = rng.uniform(0.25, 1.0) * L
            a = rng.uniform(0, np.pi)
            self.waves.append((float(rng.normal(0, 0.5)), 2 * np.pi / lam * np.array([np.cos(a), np.sin(a)]), rng.uniform(0, 2 * np.pi)))

    def __call__(self, x, y):
        out = self.c0 + self.grad[0] * x + self.grad[1] * y
        for a, c, s in self.blobs:
            out = out + a * np.exp(-((x - c[0]) ** 2 + (y - c[1]) ** 2) / (2 * s * s))
        for a, k, p in self.waves:
            out = out + a * np.cos(k[0] * x + k[1] * y + p)
        return out


def on_grid(f, L, n):
    g = np.linspace(-L / 2, L / 2, n)
    xx, yy = np.meshgrid(g, g)
    return f(xx, yy)


def correlation(f, L, r, mu, r_max_sep, inside, area, normalization, m=420):
    """covariance of the field at the two ends of a separation vector of length r which makes the angle arccos(mu) with the direction from the
    center of the map to its midpoint, over all midpoints for which both ends are on the map and in the unmasked region"""
    h = L / 2 - r_max_sep
    g = (np.arange(m) + 0.5) / m * 2 * h - h
    xx, yy = np.meshgrid(g, g)
    phi = np.arctan2(yy, xx)
    da = (2 * h / m) ** 2
    th = phi - np.arccos(mu)
    p1 = xx - r / 2 * np.cos(th), yy - r / 2 * np.sin(th)
    p2 = xx + r / 2 * np.cos(th), yy + r / 2 * np.sin(th)
    k1, k2 = f(*p1), f(*p2)
    w1, w2 = inside(*p1).astype(float), inside(*p2).astype(float)
    w = w1 * w2
    tot = w.sum()
    a1, a2 = (k1 * w).sum() / tot, (k2 * w).sum() / tot
    num = ((k1 - a1) * (k2 - a2) * w).sum()
    v1, v2 = ((k1 - a1) ** 2 * w).sum(), ((k2 - a2) ** 2 * w).sum()
    scale = np.sqrt(v1 * v2)
    if normalization:
        return num / scale, 1.0, tot / m ** 2
    return num * da / area, scale * da / area, tot / m ** 2


def maps(ck, rng, i):
    from pyHalo.realization_extensions import corr_kappa_with_mask
    L = float(rng.uniform(2.0, 6.0))
    n = int(rng.integers(90, 170))
    f = Field(rng, L, symmetric=i % 4 == 0)
    kappa = on_grid(f, L, n)
    rs = np.logspace(np.log10(L * 0.01), np.log10(L * rng.uniform(0.06, 0.16)), int(rng.integers(2, 5)))
    mu = np.linspace(-1, 1, int(rng.choice([3, 4, 5]))) if rng.integers(0, 2) else np.sort(rng.uniform(-1, 1, int(rng.integers(1, 5))))
    kind = ['none', 'hole', 'annulus', 'annulus'][i // 2 % 4]
    norm = bool(rng.integers(0, 2))
    r_min = float(rng.uniform(0.05, 0.18) * L)
    r_max = None if kind == 'hole' else float(rng.uniform(0.3, 0.42) * L)
    if kind == 'annulus':          # both ends of a radial separation fit into the annulus
        rs = rs * min(1.0, 0.55 * (r_max - r_min) / rs.max())
    h = L / 2 - rs.max()
    kw = dict(apply_mask=kind != 'none', r_min=r_min, r_max=r_max, normalization=norm)
    if i % 5 == 0 and kind == 'none':
        del kw['r_min'], kw['r_max']
    if not norm and i % 3 == 0:
        del kw['normalization']
    lab = dict(L=L, n=n, kind=kind, norm=norm, r=[float(v) for v in rs], mu=[float(v) for v in mu], r_min=r_min, r_max=r_max)
    ck.case(dict(case='correlation', i=i, **lab))
    with ck.scenario('correlation ' + kind, **lab):
        args = (kappa.copy(), rs.copy(), mu.copy())
        c = np.asarray(corr_kappa_with_mask(args[0], L, args[1], args[2], **kw))
        ck.expect(c.shape == (len(rs), len(mu)), 'shape', **lab)
        ck.expect(all(np.array_equal(a, b) for a, b in zip(args, (kappa, rs, mu))), 'arguments_are_not_changed', **lab)
        ck.expect(np.all(np.isfinite(c)), 'finite', got=c, **lab)
        if norm:
            ck.expect(np.all(np.abs(c) <= 1 + 1e-8), 'normalized_correlation_is_bounded', got=c, **lab)
        lo, hi = (0.0, np.inf) if kind == 'none' else (r_min, np.inf if r_max is None else r_max)
        area = (2 * h) ** 2 if kind == 'none' else ((2 * h) ** 2 - np.pi * r_min ** 2 if r_max is None else np.pi * (r_max ** 2 - r_min ** 2))
        tol = 2e-3 if kind == 'none' else 0.02
        px = L / (n - 1)          # the masked region can be wider by up to about one pixel
        for a in range(len(rs)):
            for b in range(len(mu)):
                want, scale, frac = correlation(f, L, rs[a], mu[b], rs.max(), lambda x, y: (np.hypot(x, y) > lo) & (np.hypot(x, y) < hi), area, norm)
                other = want if kind == 'none' else correlation(f, L, rs[a], mu[b], rs.max(), lambda x, y: (
                    np.hypot(x, y) > lo + px) & (np.hypot(x, y) < hi - px), area, norm)[0]
                if frac < 0.25:
                    ck.count('little_area')
                    continue
                ck.expect(abs(c[a, b] - (want + other) / 2) <= tol * scale + 1.5 * abs(want - other), 'correlation:' + kind + (':normalized' if norm else ''), got=float(c[a, b]), want=float(want), eroded=float(other),
                          relative=float((c[a, b] - want) / scale), ir=a, im=b, frac=frac, **lab)
        # the covariance does not depend on the mean of the map and is quadratic in the map
        s, c0 = float(rng.choice([-1, 1]) * rng.uniform(0.3, 3)), float(rng.normal(0, 1))
        scale = np.max(np.abs(c)) + 1e-300
        c2 = np.asarray(corr_kappa_with_mask(kappa * s, L, rs, mu, **kw))
        ck.expect(np.allclose(c2, c if norm else c * s * s, rtol=1e-6, atol=1e-9 * scale * (1 if norm else s * s)), 'correlation_is_quadratic_in_the_map', **lab)
        c3 = np.asarray(corr_kappa_with_mask(kappa + c0, L, rs, mu, **kw))
        if kind == 'none' or rng.integers(0, 2):
            ck.expect(np.allclose(c3, c, rtol=1e-5, atol=1e-7 * (scale + c0 ** 2)), 'constant_does_not_change_the_correlation', got=c3, want=c, **lab)
        # each separation and each angle is a problem of its own (the largest separation sets the part of the map that is used)
        p = rng.permutation(len(mu))
        c4 = np.asarray(corr_kappa_with_mask(kappa, L, rs[::-1], mu[p], **kw))
        ck.expect(np.allclose(c4, c[::-1][:, p], rtol=1e-9, atol=1e-12 * scale), 'order_of_separations_and_angles', **lab)
        c5 = np.asarray(corr_kappa_with_mask(kappa, L, rs[-1:], mu[:1], **kw))
        ck.expect(np.allclose(c5, c[-1:, :1], rtol=1e-9, atol=1e-12 * scale), 'one_separation_is_a_part_of_many', **lab)
        # zero separation: the variance
        if i % 2:
            r0 = np.append(0.0, rs)
            c6 = np.asarray(corr_kappa_with_mask(kappa, L, r0, mu, **kw))
            ck.expect(np.allclose(c6[1:], c, rtol=1e-9, atol=1e-12 * scale), 'zero_separation_changes_the_others', **lab)
            ck.expect(np.allclose(c6[0], c6[0][0], rtol=1e-9), 'zero_separation_has_no_direction', got=c6[0], **lab)
            if norm:
                ck.close(c6[0], np.ones(len(mu)), 'zero_separation_is_one', rtol=1e-9, **lab)
            else:
                ck.expect(np.all(c6[0][0] >= np.abs(c6) * (1 - (0.3 if kind != 'none' else 0.6))), 'variance_is_largest', got=c6, **lab)
        # a map that is symmetric about its center has no preferred sense of rotation
        if i % 4 == 0:
            both = np.asarray(corr_kappa_with_mask(kappa, L, rs, np.append(mu, -mu), **kw))
            ck.expect(np.allclose(both[:, :len(mu)], both[:, len(mu):], rtol=2e-3, atol=2e-3 * scale), 'symmetric_map', got=both, **lab)


def multipoles(ck, rng, i):
    from pyHalo.realization_extensions import xi_l
    nr = int(rng.integers(1, 12))
    r = np.logspace(-2, float(rng.uniform(-1, 0.5)), nr)
    if i % 3 == 0:
        mu, tol = np.cos(np.linspace(np.pi, 0, int(rng.integers(60, 200)) * 2 + 1)), 1e-6
    else:
        mu, tol = np.linspace(-1, 1, int(rng.choice([100, 101, 200, 401]))), 0.06
    amps = {l: rng.normal(0, 1, nr) * rng.integers(0, 2) + (0.2 if l == 0 else 0.0) for l in range(6)}
    cosl = np.array([np.cos(l * np.arccos(mu)) for l in range(6)])
    corr = sum(amps[l][:, None] * cosl[l][None, :] for l in range(6))
    size = sum(np.abs(amps[l]) for l in range(6))
    lab = dict(nr=nr, nmu=len(mu), uniform=i % 3 != 0)
    ck.case(dict(case='multipoles', i=i, **lab))
    with ck.scenario('multipoles', **lab):
        keep = corr.copy(), r.copy(), mu.copy()
        for l in range(6):
            out = xi_l(l, corr, r, mu)
            ck.expect(len(out) == 2 and np.array_equal(out[0], r), 'separations_are_returned', l=l, **lab)
            x = np.asarray(out[1])
            ck.expect(x.shape == (nr,) and np.all(np.abs(x - amps[l]) <= tol * size), 'multipole', l=l, got=x, want=amps[l], **lab)
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, (corr, r, mu))), 'arguments_are_not_changed', **lab)


def spectra(ck, rng, i):
    from scipy.special import kv, gamma
    from pyHalo.realization_extensions import xi_l_to_Pk_l
    l = int(rng.choice([0, 0, 2, 4]))
    s, amp = float(10 ** rng.uniform(-1, 1)), float(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 1))
    n = int(rng.choice([60, 128, 200]))
    r = np.logspace(-3, 3, n, endpoint=bool(rng.integers(0, 2))) * s
    # int r^(l+1) J_l(kr) / (1+r^2)^(q+1) dr = k^q K_(l-q)(k) / 2^q / Gamma(q+1)
    q = l / 2 + float(rng.uniform(0.7, 3.0))
    xi = amp * (r / s) ** l / (1 + (r / s) ** 2) ** (q + 1)
    lab = dict(l=l, s=s, amp=amp, n=n)
    ck.case(dict(case='spectrum', i=i, **lab))
    with ck.scenario('spectrum', **lab):
        kws = {} if l == 0 and rng.integers(0, 2) else {'l': l}
        ext = bool(rng.integers(0, 2))
        if not ext:
            kws['extrapolate'] = False
        keep = r.copy(), xi.copy()
        k, P = xi_l_to_Pk_l(r, xi, **kws)
        k, P = np.asarray(k), np.asarray(P)
        ck.expect(np.array_equal(r, keep[0]) and np.array_equal(xi, keep[1]), 'arguments_are_not_changed', **lab)
        ck.expect(P.shape == k.shape == r.shape and not np.iscomplexobj(P) and np.all(np.diff(k) > 0), 'spectrum_shape', **lab)
        want = amp * 2 * np.pi * (-1) ** (l // 2) * s ** 2 * (k * s) ** q * kv(l - q, np.minimum(k * s, 600.0)) / 2 ** q / gamma(q + 1)
        peak = np.max(np.abs(want))
        w = (k * s > 0.03) & (k * s < 6)
        err = np.max(np.abs(P - want)[w]) / peak
        ck.expect(np.sum(w) > 10 and err < 2e-3, 'spectrum_is_the_hankel_transform', err=float(err), ext=ext, **lab)
        # a separation of zero carries no weight
        k0, P0 = xi_l_to_Pk_l(np.append(0.0, r), np.append(float(rng.normal()), xi), **kws)
        ck.expect(np.array_equal(k0, k) and np.allclose(P0, P, rtol=1e-12, atol=1e-12 * peak), 'zero_separation_is_left_out', **lab)
        k2, P2 = xi_l_to_Pk_l(r, 2.5 * xi, **kws)
        ck.expect(np.allclose(P2, 2.5 * P, rtol=1e-8, atol=1e-8 * peak), 'spectrum_is_linear', **lab)


def fits(ck, rng, i):
    from pyHalo.realization_extensions import fit_correlation_multipole
    n = float(rng.uniform(-3, 2))
    As = float(10 ** rng.uniform(-2, 1.5))
    r_min, r_max = float(10 ** rng.uniform(-1.5, -0.5)), float(10 ** rng.uniform(0.0, 1.0))
    r = np.logspace(-2, 1.5, int(rng.integers(60, 150)))
    xi = As * (r / ((r_min + r_max) / 2)) ** n
    lab = dict(n=n, As=As, r_min=r_min, r_max=r_max, points=len(r))
    ck.case(dict(case='fit', i=i, **lab))
    with ck.scenario('fit', **lab):
        out = (r <= r_min) | (r >= r_max)
        xi[out] = rng.normal(0, 10, np.sum(out))          # outside of the range that is fitted
        keep = r.copy(), xi.copy()
        A, m = fit_correlation_multipole(r, xi, r_min, r_max)
        ck.close([float(A), float(m)], [As, n], 'power_law_fit', rtol=1e-4, atol=1e-6, **lab)
        ck.expect(np.array_equal(r, keep[0]) and np.array_equal(xi, keep[1]), 'arguments_are_not_changed', **lab)
        # points at the limits do not count
        r2 = np.append(np.append(r_min, r[~out]), r_max)
        x2 = np.append(np.append(100 * As, xi[~out]), 100 * As)
        A, m = fit_correlation_multipole(r2, x2, r_min, r_max)
        ck.close([float(A), float(m)], [As, n], 'power_law_fit_open_range', rtol=1e-4, atol=1e-6, **lab)


def chain(ck, rng, i):
    """map -> correlation -> monopole: a random field of plane waves in all directions has xi_0(r) = sum A^2/2 J0(kr)"""
    from scipy.special import j0
    from pyHalo.realization_extensions import corr_kappa_with_mask, xi_l
    L, n = 6.0, 160
    k = 2 * np.pi / float(rng.uniform(0.5, 0.8))
    nw = 24
    ang = (np.arange(nw) + rng.uniform()) * np.pi / nw
    ph = rng.uniform(0, 2 * np.pi, nw)
    amp = float(rng.uniform(0.05, 1))
    g = np.linspace(-L / 2, L / 2, n)
    xx, yy = np.meshgrid(g, g)
    kap = amp * sum(np.cos(k * (xx * np.cos(a) + yy * np.sin(a)) + p) for a, p in zip(ang, ph))
    r = np.logspace(-2, np.log10(0.5), 5)
    mu = np.cos(np.linspace(np.pi, 0, 13))
    lab = dict(k=k, amp=amp)
    ck.case(dict(case='chain', i=i, **lab))
    with ck.scenario('chain', **lab):
        c = corr_kappa_with_mask(kap, L, r, mu, False)
        _, x0 = xi_l(0, c, r, mu)
        want = amp ** 2 * nw / 2 * j0(k * r)
        ck.expect(np.all(np.abs(x0 - want) < 0.25 * amp ** 2 * nw / 2), 'monopole_of_isotropic_waves', got=x0 / (amp ** 2 * nw / 2), want=j0(k * r), **lab)


def body(ck):
    for i in range(40 * ROUNDS):
        if ck.out_of_time(0.8):
            break
        r = rng_for('map', i)
        seed_global('map', i)
        maps(ck, r, i)
    for i in range(60 * ROUNDS):
        r = rng_for('poles', i)
        multipoles(ck, r, i)
        spectra(ck, r, i)
        fits(ck, r, i)
    for i in range(4 * ROUNDS):
        chain(ck, rng_for('chain', i), i)


if __name__ == '__main__':
    vf.main('C21', RULE, body)
