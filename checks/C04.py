import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
from scipy import integrate, stats
from vf import THOROUGH, rng_for, seed_global
from oracles import ARCSEC

RULE = ('random (geometry type, opening angle, lens/source redshift, cosmology, closure parameter) and redshifts inside '
        'the volume; plane spacings; every case evaluates areas, volumes, planes or drawn positions (non-trivial when the '
        'redshift lies strictly inside the volume)')


def body(ck):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.utilities import generate_lens_plane_redshifts
    rng = rng_for('C04')
    seed_global('C04')
    nlens = 30 if THOROUGH else 10
    for k in range(nlens):
        ckw = {} if k % 3 == 0 else {'H0': rng.uniform(60, 78), 'Om0': rng.uniform(0.2, 0.4)}
        cosmo = Cosmology(cosmo_kwargs=ckw)
        ap = cosmo.astropy
        zl = round(rng.uniform(0.1, 1.0), 2)
        zs = round(zl + rng.uniform(0.3, 2.4), 4 if k % 2 else 2)
        theta = rng.uniform(2, 14)
        pad = float(rng.choice([0.95, 0.8, 1.0, 0.5]))
        for gt in ('DOUBLE_CONE', 'CYLINDER', 'CONE'):
            lab = dict(geo=gt, zl=zl, zs=zs, theta=theta, pad=pad, **ckw)
            with ck.scenario('geometry', **lab):
                geo = Geometry(cosmo, zl, zs, theta, gt, angle_pad=pad)
                Dl = ap.comoving_transverse_distance(zl).value

                def shape(z):
                    if gt == 'CONE':
                        return 1.0
                    if gt == 'CYLINDER':
                        return Dl / ap.comoving_transverse_distance(z).value
                    if z <= zl:
                        return 1.0
                    Ds = ap.angular_diameter_distance(zs).value
                    Dls = ap.angular_diameter_distance_z1z2(zl, zs).value
                    Dlz = ap.angular_diameter_distance_z1z2(zl, z).value
                    return 1 - pad * (Ds / Dls) * (Dlz / ap.angular_diameter_distance(z).value)

                def comoving_area(z, r=0.5 * theta):
                    return np.pi * (r * ARCSEC * shape(z) * ap.comoving_transverse_distance(z).value) ** 2

                zlist = list(rng.uniform(0.04, zs - 0.02, 8)) + [zl, zl + 0.02, zl - 0.02, zs - 0.01]
                for z in zlist:
                    z = float(z)
                    r = rng.uniform(0.1, theta)
                    sc = shape(z)
                    f = (1.0 if z > 0.1 else 4.0) * (1.0 if sc > 0.15 else 8.0)  # distance tables are linear in z
                    tol = dict(rtol=2e-3 * f, atol=0, lab=lab, z=z)
                    ck.close(geo.rendering_scale(z), sc, 'angular_scale', rtol=2e-3, atol=2e-4, lab=lab, z=z)
                    ck.expect(geo.rendering_scale(z) >= -1e-6, 'scale_not_negative', lab=lab, z=z)
                    rp = r * ARCSEC * geo.rendering_scale(z) * ap.angular_diameter_distance(z).value
                    ck.close(geo.angle_to_physicalradius(r, z), rp, 'physical_radius', **tol)
                    ck.close(geo.angle_to_comovingradius(r, z), rp * (1 + z), 'comoving_radius', **tol)
                    ck.close(geo.angle_to_physical_area(r, z), np.pi * rp ** 2, 'physical_area', rtol=4e-3 * f, lab=lab, z=z)
                    ck.close(geo.angle_to_comoving_area(r, z), np.pi * (rp * (1 + z)) ** 2, 'comoving_area', rtol=4e-3 * f,
                             lab=lab, z=z)
                    dz = float(rng.choice([0.01, 0.02, 0.05]))
                    dz = min(dz, zs - z)
                    dh = lambda q: ap.hubble_distance.value / ap.efunc(q)
                    # the reference respects the kink of the double cone at the lens
                    cut = sorted(set([z, min(max(zl, z), z + dz), z + dz]))
                    want = sum(integrate.fixed_quad(lambda q: np.array([comoving_area(x) * dh(x) for x in q]), a, b,
                                                    n=8)[0] for a, b in zip(cut[:-1], cut[1:]))
                    atol = 1e-12
                    ck.close(geo.volume_element_comoving(z, dz), want, 'plane_volume', rtol=5e-3 * f, atol=atol, lab=lab, z=z,
                             dz=dz)
                    rr = 0.3 * theta
                    ck.close(geo.volume_element_comoving(z, dz, radius=rr), want * (rr / (0.5 * theta)) ** 2,
                             'plane_volume_in_radius', rtol=5e-3 * f, atol=atol, lab=lab, z=z)
                    # a plane cut in two has the same volume (also across the thin-slice shortcut)
                    h = dz * 0.37
                    ck.close(geo.volume_element_comoving(z, h) + geo.volume_element_comoving(z + h, dz - h), want,
                             'volume_additive', rtol=5e-3 * f, atol=atol, lab=lab, z=z)
                    thin = 5e-5
                    ck.close(geo.volume_element_comoving(z, thin), comoving_area(z) * dh(z) * thin, 'thin_plane_volume',
                             rtol=8e-3 * f, atol=1e-15, lab=lab, z=z)
                    ck.case(dict(z=z, r=r, **lab))
                # the planes add up to the whole volume
                edges = np.unique(np.concatenate([np.linspace(1e-4, zl, 60), np.linspace(zl, zs, 90)]))
                tot = sum(integrate.fixed_quad(lambda q: np.array([comoving_area(x) * ap.hubble_distance.value / ap.efunc(x)
                                                                   for x in q]), a, b, n=4)[0]
                          for a, b in zip(edges[:-1], edges[1:]))
                ck.close(geo.volume_MPC3, tot, 'total_volume', rtol=4e-3, lab=lab)
                cuts = np.append(np.arange(0.0, zs, 0.01), zs)
                cuts = cuts[np.append(np.diff(cuts) > 2e-4, True)]
                cuts[-1] = zs
                ck.close(geo.volume_MPC3, sum(geo.volume_element_comoving(a, b - a) for a, b in zip(cuts[:-1], cuts[1:])),
                         'volume_ends_at_the_source', rtol=2e-6, lab=lab)
                zp, dzp = generate_lens_plane_redshifts(zl, zs)
                ck.close(sum(geo.volume_element_comoving(a, b) for a, b in zip(zp, dzp))
                         + geo.volume_element_comoving(1e-4, zp[0] - 1e-4), tot, 'planes_tile_volume', rtol=4e-3, lab=lab)
                if gt == 'CYLINDER':
                    ck.close(geo.volume_MPC3, np.pi * (0.5 * theta * ARCSEC * Dl) ** 2
                             * ap.comoving_distance(zs).value, 'cylinder_closed_form', rtol=5e-3, lab=lab)

                # containment and uniformity of drawn positions
                dist = LensConeUniform(theta, geo)
                for z in (float(rng.uniform(0.05, zl)), zl, float(rng.uniform(zl, zs - 0.02))):
                    cx, cy = (0.0, 0.0) if rng.integers(0, 2) else (rng.normal(), rng.normal())
                    n = 20000 if THOROUGH else 6000
                    x, y = dist.draw(n, z, center_x=cx, center_y=cy)
                    kpa = 1.0 / ap.arcsec_per_kpc_proper(z).value
                    xa, ya = np.asarray(x) / kpa - cx, np.asarray(y) / kpa - cy
                    rmax = 0.5 * theta * shape(z)
                    rr = np.hypot(xa, ya)
                    ck.expect(len(x) == n and len(y) == n, 'number_drawn', lab=lab, z=z)
                    ck.expect(rr.max() <= rmax * 1.01 + 0.003 * np.hypot(cx, cy), 'inside_aperture', lab=lab, z=z,
                              got=rr.max(), want=rmax)
                    ck.expect(rr.max() >= rmax * 0.985, 'fills_aperture', lab=lab, z=z, got=rr.max(), want=rmax)
                    if cx == 0:
                        p1 = stats.kstest(np.minimum((rr / rr.max()) ** 2, 1), 'uniform').pvalue
                        p2 = stats.kstest(np.mod(np.arctan2(ya, xa), 2 * np.pi) / (2 * np.pi), 'uniform').pvalue
                        ck.expect(p1 > 1e-7, 'uniform_in_area', p=p1, lab=lab, z=z)
                        ck.expect(p2 > 1e-7, 'isotropic', p=p2, lab=lab, z=z)
                    ck.case(dict(draw=n, z=z, cx=cx, cy=cy, **lab))
                R, sc = rng.uniform(0.5, 5), rng.uniform(0.2, 2.0)
                u = Uniform(R, geo)
                z = float(rng.uniform(0.05, zs - 0.02))
                x, y = u.draw(4000, z, rescale=sc)
                kpa = 1.0 / ap.arcsec_per_kpc_proper(z).value
                rr = np.hypot(x, y) / kpa
                ck.expect(R * sc * 0.98 <= rr.max() <= R * sc * 1.005, 'uniform_radius', lab=lab, R=R, sc=sc, got=rr.max())
                ck.expect(stats.kstest(np.minimum((rr / rr.max()) ** 2, 1), 'uniform').pvalue > 1e-7, 'uniform_in_area')
                ck.expect(len(u.draw(0, z)[0]) == 0 and len(dist.draw(0, z)[0]) == 0, 'zero_draw_is_empty')
        for bad in ('SPHERE', 'double_cone', None):
            try:
                Geometry(cosmo, zl, zs, theta, bad)
                ck.fail('unknown_geometry_rejected', name=bad)
            except Exception:
                ck.count('unknown_geometry_rejected')

    # lens planes tile the line of sight (exhaustive over 2-decimal redshifts in the thorough tier)
    grid = [(zl, zs) for zl in np.round(np.arange(0.05, 1.5, 0.01), 2) for zs in np.round(np.arange(0.15, 3.5, 0.01), 2)
            if zs > zl + 0.05]
    if not THOROUGH:
        grid = [grid[i] for i in rng.choice(len(grid), 3000, replace=False)]
    grid += [(None, float(zs)) for zs in np.round(np.arange(0.2, 3.5, 0.11), 2)]
    for zl, zs in grid:
        zl, zs = (None if zl is None else float(zl)), float(zs)
        for sp in (None, float(rng.choice([0.01, 0.03, 0.04, 0.05, 0.1, 0.025, 0.02]))):
            z, d = generate_lens_plane_redshifts(zl, zs, sp)
            z, d = np.asarray(z, float), np.asarray(d, float)
            lab = dict(zl=zl, zs=zs, spacing=sp)
            ok = ck.expect(len(z) == len(d) and np.all(np.diff(z) > 0) and np.all(d > 0), 'planes_distinct', lab=lab)
            ck.expect(np.all(np.abs(z[1:] - z[:-1] - d[:-1]) < 1e-6) and abs(z[-1] + d[-1] - zs) < 1e-6, 'planes_no_gaps',
                      lab=lab)
            ck.expect(z[0] > 0 and abs(z[0] - 0.01) < 1e-9 and z[-1] < zs, 'planes_between_observer_and_source', lab=lab)
            if zl is not None:
                ck.expect(np.min(np.abs(z - zl)) < 1e-9, 'lens_is_a_plane', lab=lab)
            s = 0.02 if sp is None else sp
            ck.expect(np.all(d <= s + 0.0101), 'plane_spacing_respected', lab=lab, got=float(d.max()))
            # as many planes as the spacing asks for (one short slice in front of the lens and one in front of the source)
            n = (zs - 0.01) / s if zl is None else (zl - 0.01) / s + (zs - zl) / s
            ck.expect(n - 1.6 <= len(z) <= n + 2.6, 'number_of_planes', lab=lab, got=len(z), want=n)
        if ck.evaluations < 4000:
            ck.case(dict(planes=[zl, zs]))


if __name__ == '__main__':
    vf.main('C04', RULE, body)
