import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import copy
import hashlib
import tempfile
import numpy as np
import h5py
from vf import THOROUGH, rng_for, seed_global
from worlds import exports
from C14 import frozen, differ
import refs

RULE = ('generated merger-tree files and node tables (several outputs and trees, extra groups and quantities, renamed parameters) read, filtered and turned '
        'into halos with random requests; a case is one read, one set of filters or one realization, compared node by node with the records that were written')
ROUNDS = 8 if THOROUGH else 1


def renamed(rng):
    """a build of the tree code with other names"""
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil

    class Util(GalacticusUtil):
        pass
    for k in dir(GalacticusUtil):
        if k.startswith('PARAM_') and rng.integers(0, 2):
            setattr(Util, k, 'other_' + getattr(GalacticusUtil, k))
    if rng.integers(0, 2):
        Util.HDF5_GROUP_OUTPUT_PRIMARY, Util.HDF5_GROUP_OUTPUT_N_PREFIX, Util.HDF5_GROUP_NODEDATA = 'Snapshots', 'Snap', 'nodes'
        Util.HDF5_DSET_TREECOUNT, Util.HDF5_DSET_TREEINDEX, Util.HDF5_DSET_TREESTART = 'count', 'index', 'start'
    return Util()


def trees(rng, g, few=False):
    """records of one output: {quantity: values}, count and index of each tree; hosts sit anywhere inside of their tree"""
    nt = int(rng.choice([1, 1, 2, 3, 5]))
    index = np.sort(rng.choice(np.arange(1, 30), nt, replace=False)) if rng.integers(0, 2) else np.arange(1, nt + 1)
    counts, out = [], {}
    for t in range(nt):
        n = int(rng.integers(1, 8 if few else 50))
        m = 10 ** rng.uniform(6, 10, n)
        c = rng.uniform(4, 30, n)
        rv = 0.3 * (m / 1e13) ** (1 / 3)
        pos = rng.normal(0, 10 ** rng.uniform(-2.5, -0.5), (3, n))
        iso = np.zeros(n, int)
        h = int(rng.integers(0, n))
        iso[h], m[h], rv[h], pos[:, h] = 1, 1e13, rng.uniform(0.02, 0.6), 0
        rv_out = np.where(iso == 1, rv, rv * 10 ** rng.uniform(-0.6, 0.2, n))     # at the output; the concentration is that at infall
        q = {g.PARAM_X: pos[0], g.PARAM_Y: pos[1], g.PARAM_Z: pos[2], g.PARAM_TNFW_RHO_S: 10 ** rng.uniform(14, 16.5, n),
             g.PARAM_TNFW_RADIUS_TRUNCATION: rv * rng.uniform(0.05, 1, n), g.PARAM_RADIUS_VIRIAL: rv_out, g.PARAM_RADIUS_SCALE: rv / c,
             g.PARAM_MASS_BOUND: m * 10 ** rng.uniform(-2, 0, n), g.PARAM_MASS_INFALL: m, g.PARAM_ISOLATED: iso,
             g.PARAM_Z_LAST_ISOLATED: rng.uniform(0.5, 5, n), g.PARAM_CONCENTRATION: c, g.PARAM_HIERARCHY: rng.integers(0, 4, n),
             'someFlag': rng.integers(0, 9, n).astype(np.int64), 'somethingElse': rng.normal(0, 1, n).astype(np.float32),
             g.PARAM_DENSITY_PROFILE: rng.normal(0, 1, (n, 5))}
        for k, v in q.items():
            out.setdefault(k, []).append(v)
        counts.append(n)
    return {k: np.concatenate(v) for k, v in out.items()}, np.array(counts), index


def custom(g, counts, index):
    return {g.PARAM_TREE_INDEX: np.repeat(index, counts), g.PARAM_TREE_ORDER: np.repeat(np.arange(len(counts)), counts),
            g.PARAM_NODE_ID: np.arange(int(np.sum(counts)))}


def write(rng, path, g):
    """file with several outputs; returns the records"""
    numbers = sorted(int(x) for x in rng.choice([1, 2, 3, 8, 9, 10, 11, 21, 100], int(rng.integers(1, 5)), replace=False))
    made = {}
    with h5py.File(path, 'w') as f:
        top = f.create_group(g.HDF5_GROUP_OUTPUT_PRIMARY)
        if rng.integers(0, 2):
            top.create_group(g.HDF5_GROUP_OUTPUT_N_PREFIX + 'Times')
            top.create_group('Metadata7')
        for o in rng.permutation(numbers):
            q, counts, index = trees(rng, g)
            gr = top.create_group('%s%d' % (g.HDF5_GROUP_OUTPUT_N_PREFIX, o))
            gr[g.HDF5_DSET_TREECOUNT], gr[g.HDF5_DSET_TREEINDEX] = counts, index
            gr[g.HDF5_DSET_TREESTART] = np.concatenate([[0], np.cumsum(counts)[:-1]])
            nd = gr.create_group(g.HDF5_GROUP_NODEDATA)
            other = {'perTree': rng.normal(0, 1, len(counts)), g.PARAM_DENSITY_PROFILE_RADIUS: rng.normal(0, 1, 7 + int(np.sum(counts)))}
            other = {k: v for k, v in other.items() if len(v) != np.sum(counts)}
            for k, v in list(q.items()) + list(other.items()):
                nd[k] = v
            nd.create_group('nested')['inside'] = np.arange(int(np.sum(counts)))
            made[int(o)] = (q, counts, index, other)
    return numbers, made


def same_table(ck, got, want, key, **lab):
    if ck.expect(isinstance(got, dict) and set(got) == set(want), key + ':quantities', missing=sorted(set(want) - set(got or {}))[:5],
                 extra=sorted(set(got or {}) - set(want))[:5], **lab):
        bad = [k for k in want if np.shape(got[k]) != np.shape(want[k]) or not np.array_equal(got[k], want[k])]
        ck.expect(not bad, key + ':values', wrong=bad[:4], **lab)


def checksum(path):
    return hashlib.md5(open(path, 'rb').read()).hexdigest()


def reading(ck, rng, tmp, i):
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    g = renamed(rng) if i % 2 else GalacticusUtil()
    path = os.path.join(tmp, 'trees_%d.hdf5' % i)
    numbers, made = write(rng, path, g)
    before = checksum(path)
    with ck.scenario('read:outputs', outputs=numbers):
        with h5py.File(path, 'r') as f:
            ck.expect(sorted(np.asarray(g.hdf5_read_output_indices(f)).tolist()) == numbers, 'outputs_of_the_file', outputs=numbers)
            for o in numbers:
                q, counts, index, other = made[o]
                ck.expect(g.hdf5_read_nodecount_total(f, o) == counts.sum(), 'number_of_nodes', output=o)
                same_table(ck, g.hdf5_read_custom_nodedata(f, o), custom(g, counts, index), 'tree_of_each_node', output=o, counts=counts)
                ck.expect(set(g.hdf5_access_output_n_nodedata(f, o).keys()) == set(q) | set(other) | {'nested'}, 'group_of_an_output', output=o)
    for j in range(6):
        o = None if rng.integers(0, 2) else int(rng.choice(numbers))
        q, counts, index, other = made[numbers[-1] if o is None else o]
        only = bool(rng.integers(0, 3))
        pool = list(q) + list(other)
        kind = int(rng.integers(0, 4))
        ask = None if kind == 0 else (str(rng.choice(pool)) if kind == 1 else [str(x) for x in rng.choice(pool, int(rng.integers(0, len(pool))), replace=False)])
        if kind == 3:
            ask = tuple(ask)
        frozen_ask = copy.deepcopy(ask)
        stored = dict(q) if only else dict(q, **other)
        names = [ask] if isinstance(ask, str) else ask
        want = {k: v for k, v in stored.items() if names is None or k in names}
        want.update(custom(g, counts, index))
        lab = dict(output=o, outputs=numbers, ask=ask, nodes_only=only, trees=len(counts))
        ck.case(dict(kind='read', file=i, **lab))
        with ck.scenario('read', **lab):
            if rng.integers(0, 2):
                got = g.read_nodedata_galacticus(path, o, ask, only)
            else:
                with h5py.File(path, 'r') as f:
                    got = g.hdf5_read_galacticus_nodedata(f, output_index=o, params_to_read=ask, nodes_only=only)
            same_table(ck, got, want, 'stored_values', **lab)
            ck.expect(ask == frozen_ask, 'request_is_not_changed', **lab)
            if got:
                k = next(iter(got))
                got[k][...] = 0         # what was returned belongs to the caller
                same_table(ck, g.read_nodedata_galacticus(path, o, ask, only), want, 'stored_values', again=True, **lab)
    ck.expect(checksum(path) == before, 'file_is_not_changed')
    empty = os.path.join(tmp, 'empty_%d.hdf5' % i)
    with ck.scenario('read:no_outputs'):
        with h5py.File(empty, 'w') as f:
            f.create_group(g.HDF5_GROUP_OUTPUT_PRIMARY)
        ck.expect(g.read_nodedata_galacticus(empty) is None, 'file_without_outputs')
    os.unlink(empty)
    return path, g, numbers, made


def unit(theta, phi):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def filters(ck, rng, i):
    import pyHalo.Halos.galacticus_util.galacticus_filter as gf
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    default = i % 2 == 0
    g = GalacticusUtil() if default else renamed(rng)
    q, counts, index = trees(rng, g)
    nodes = dict(q, **custom(g, counts, index))
    # nodes are not stored tree by tree in every table
    if rng.integers(0, 2):
        p = rng.permutation(len(nodes[g.PARAM_X]))
        nodes = {k: v[p] for k, v in nodes.items()}
    # some of the trees are not selected
    if len(counts) > 1 and rng.integers(0, 3) == 0:
        gone = rng.integers(0, len(counts))
        keep = nodes[g.PARAM_TREE_ORDER] != gone
        nodes = {k: v[keep] for k, v in nodes.items()}
    snap = copy.deepcopy(nodes)
    n = len(nodes[g.PARAM_X])
    util = (lambda: None) if default and rng.integers(0, 2) else (lambda: g)
    t = int(rng.choice(np.append(index, 99)))
    key = str(rng.choice([g.PARAM_MASS_BOUND, g.PARAM_MASS_INFALL, g.PARAM_CONCENTRATION]))
    lo, hi = sorted(np.quantile(nodes[key], rng.uniform(0, 1, 2)))
    if rng.integers(0, 3) == 0:
        lo, hi = nodes[key][rng.integers(0, n)], nodes[key].max()            # a limit that coincides with a node
    normal = unit(np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 6.28)) * 10 ** rng.uniform(-2, 2)
    if rng.integers(0, 3) == 0:
        normal = list(normal)
    r = np.array([nodes[g.PARAM_X], nodes[g.PARAM_Y], nodes[g.PARAM_Z]])
    e = np.asarray(normal) / np.linalg.norm(normal)
    r2d = np.linalg.norm(r - np.outer(e, e @ r), axis=0)
    rmax = float(np.quantile(r2d, rng.uniform(0.05, 1)) * 1.0001)
    rv = {}
    for k in range(n):
        if nodes[g.PARAM_ISOLATED][k] == 1:
            rv[int(nodes[g.PARAM_TREE_ORDER][k])] = nodes[g.PARAM_RADIUS_VIRIAL][k]
    r3 = np.sqrt((r ** 2).sum(0))
    want = {'tree': np.array([x == t for x in nodes[g.PARAM_TREE_INDEX]]), 'subhalos': nodes[g.PARAM_ISOLATED] == 0, 'halos': nodes[g.PARAM_ISOLATED] != 0,
            'range': np.array([lo < x < hi for x in nodes[key]]),
            'virialized': np.array([r3[k] < rv[int(nodes[g.PARAM_TREE_ORDER][k])] for k in range(n)]), 'r2d': r2d < rmax}
    run = {'tree': lambda d: gf.nodedata_filter_tree(d, t, util()), 'subhalos': lambda d: gf.nodedata_filter_subhalos(d, util()),
           'halos': lambda d: gf.nodedata_filter_halos(d, util()), 'range': lambda d: gf.nodedata_filter_range(d, (lo, hi), key, util()),
           'virialized': lambda d: gf.nodedata_filter_virialized(d, util()), 'r2d': lambda d: gf.nodedata_filter_r2d(d, rmax, normal, util())}
    lab = dict(table=i, default=default, counts=counts, tree=t, name=key, limits=[lo, hi], rmax=rmax)
    ck.case(dict(kind='filters', **lab))
    for name, f in run.items():
        with ck.scenario('filter:' + name, **lab):
            got = f(nodes)
            ck.expect(np.asarray(got).dtype == bool and np.array_equal(got, want[name]), 'filter_keeps_exactly_its_nodes:' + name,
                      wrong=int(np.sum(np.asarray(got) != want[name])) if np.shape(got) == (n,) else np.shape(got), n=n, **lab)
    with ck.scenario('filter:apply', **lab):
        names = list(rng.permutation(list(run))[:int(rng.integers(2, 5))])
        # the virial filter needs the host halos of the trees: it comes before filters that remove them
        names.sort(key=lambda x: 0 if x == 'virialized' else (1 if x == 'tree' else 2))
        if 'tree' in names and 'virialized' in names and rng.integers(0, 2):
            names.remove('tree')
            names.insert(0, 'tree')
        both = np.all([want[x] for x in names], axis=0)
        got = gf.nodedata_apply_filter(nodes, np.all([run[x](nodes) for x in names], axis=0), util())
        same_table(ck, got, {k: v[both] for k, v in nodes.items()}, 'filters_combine', names=names, **lab)
        step = nodes
        for x in names:
            if len(step[g.PARAM_X]):
                step = gf.nodedata_apply_filter(step, run[x](step), util())
        same_table(ck, step, {k: v[both] for k, v in nodes.items()}, 'filters_one_after_the_other', names=names, **lab)
        ix = np.nonzero(both)[0]
        same_table(ck, gf.nodedata_apply_filter(nodes, ix), {k: v[ix] for k, v in nodes.items()}, 'filters_combine', names=names, **lab)
    with ck.scenario('select_subhalo', **lab):
        k = int(rng.integers(0, n))
        got = gf.nodedata_select_subhalo(nodes, nodes[g.PARAM_NODE_ID][k], util())
        same_table(ck, got, {q_: v[k] for q_, v in nodes.items()}, 'selected_subhalo', node=k, **lab)
    with ck.scenario('project_r2d', **lab):
        ck.close(gf.project_r2d(*r, np.asarray(normal)), r2d, 'projected_radius', rtol=1e-6, atol=1e-7 * r3.max(), **lab)
        k = int(rng.integers(0, n))
        ck.close(gf.project_r2d(r[0, k], r[1, k], r[2, k], np.asarray(normal)), r2d[k], 'projected_radius', rtol=1e-6, atol=1e-7 * r3.max(), scalar=True, **lab)
        along = e * rng.uniform(0.01, 1)
        got = gf.project_r2d(np.array([along[0], 0.]), np.array([along[1], 0.]), np.array([along[2], 0.]), np.asarray(normal))
        ck.close(got, [0, 0], 'projected_radius', atol=3e-8, along=True, **lab)
    same_table(ck, nodes, snap, 'table_is_not_changed', **lab)


def galacticus(ck, rng, source, i):
    """realization from a file or a table"""
    from pyHalo.PresetModels.external import DMFromGalacticus
    from pyHalo.preset_models import preset_model_from_name
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    path, g, numbers, made = source
    how = ['table', 'path', 'group'][i % 3]
    q, counts, index, _ = made[numbers[-1]]
    nodes = dict(q, **custom(g, counts, index))
    # bring a part of the nodes into the aperture
    zs = float(rng.uniform(0.9, 3))
    angle = float(rng.uniform(4, 40))
    theta, phi = (0, 0) if rng.integers(0, 4) == 0 else (float(np.arccos(rng.uniform(-1, 1))), float(rng.uniform(0, 2 * np.pi)))
    t = int(rng.choice(index))
    bound = bool(rng.integers(0, 2))
    lo, hi = sorted(rng.uniform(5, 10.5, 2)) if rng.integers(0, 2) else (4.0, 11.0)
    preset = str(rng.choice(['CDM', 'WDM']))
    los = dict(LOS_normalization=float(rng.choice([0.0, 0.05])), log_mlow=7.5, log_mhigh=9.5)
    if preset == 'WDM':
        los['log_mc'] = float(rng.uniform(6, 8))
    kw = dict(mass_range_is_bound=bound)
    if theta or phi:
        kw.update(proj_angle_theta=theta, proj_angle_phi=phi)
    if type(g) is not GalacticusUtil or rng.integers(0, 2):
        kw['galacticus_utilities'] = g
    if preset != 'CDM' or rng.integers(0, 2):
        kw['preset_model_los'] = preset
    own_filter = own_params = None
    if rng.integers(0, 4) == 0:
        calls = []

        def own_filter(d, u):
            calls.append((set(d), u is g or type(u) is type(g)))
            return (d['someFlag'] > 3) & (d[u.PARAM_ISOLATED] == 0)
        kw.update(nodedata_filter=own_filter, galacticus_params_additional=('someFlag',))
    if rng.integers(0, 4) == 0:
        def own_params(d, u):
            c = d[u.PARAM_CONCENTRATION]
            return {'rhos': 1e7 * np.ones_like(c), 'rs': 1e3 * d[u.PARAM_RADIUS_SCALE], 'rv': 1e3 * d[u.PARAM_RADIUS_SCALE] * c,
                    'r_trunc_kpc': 0.5 + 0 * c, 'z_infall': d[u.PARAM_Z_LAST_ISOLATED] + 1, 'index': d[u.PARAM_NODE_ID] + 7}
        kw['galacticus_tabulate_tnfw_params'] = own_params
    lab = dict(how=how, theta=theta, phi=phi, tree=t, angle=angle, bound=bound, log_m=[lo, hi], zs=zs, preset=preset, own_filter=own_filter is not None,
               own_params=own_params is not None)
    ck.case(dict(kind='galacticus', file=i, **lab))
    snap = copy.deepcopy(nodes)
    with ck.scenario('galacticus', **lab):
        f = h5py.File(path, 'r') if how == 'group' else None
        src = {'table': nodes, 'path': path, 'group': f}[how]
        np.random.seed(1000 + i)
        more = {'sigma_sub': 0.05} if rng.integers(0, 3) == 0 else {}          # subhalos come from the trees only
        real = DMFromGalacticus(src, zs, angle, float(t) if rng.integers(0, 2) else t, lo, hi, **kw, **los, **more)
        if f:
            f.close()
        np.random.seed(1000 + i)
        alone = preset_model_from_name(preset)(z_lens=0.5, z_source=zs, cone_opening_angle_arcsec=angle, sigma_sub=0.0, **los)
        same_table(ck, nodes, snap, 'table_is_not_changed', **lab)
        subs, rest = [h for h in real.halos if h.is_subhalo], [h for h in real.halos if not h.is_subhalo]
        ck.expect(len(rest) == len(alone.halos) and all((a.mass, a.x, a.y, a.z, a.mdef) == (b.mass, b.x, b.y, b.z, b.mdef) for a, b in zip(rest, alone.halos)),
                  'line_of_sight_halos_are_those_of_the_preset', n=len(rest), want=len(alone.halos), **lab)
        if rest:
            j = int(rng.integers(0, len(rest)))
            a, b = exports(rest[j]), exports(alone.halos[j])
            ck.expect(list(a[0]) == list(b[0]) and all(set(x) == set(y) for x, y in zip(a[1], b[1])), 'line_of_sight_halos_are_those_of_the_preset', **lab)
        ck.expect(abs(real.geometry.cone_opening_angle - angle) < 1e-9 and real.lens_cosmo.z_source == zs and real.lens_cosmo.z_lens == 0.5,
                  'volume_of_the_realization', **lab)
        # expected subhalos
        ap = real.lens_cosmo.cosmo.astropy
        kpa = refs.kpa(ap, 0.5)
        r = 1e3 * np.array([nodes[g.PARAM_X], nodes[g.PARAM_Y], nodes[g.PARAM_Z]])
        e = unit(theta, phi)
        r2d = np.linalg.norm(r - np.outer(e, e @ r), axis=0)
        r3d = np.linalg.norm(r, axis=0)
        n = len(r3d)
        rv = {int(nodes[g.PARAM_TREE_ORDER][k]): nodes[g.PARAM_RADIUS_VIRIAL][k] * 1e3 for k in range(n) if nodes[g.PARAM_ISOLATED][k] == 1}
        m = nodes[g.PARAM_MASS_BOUND if bound else g.PARAM_MASS_INFALL]
        edge = np.abs(r2d / (0.5 * angle * kpa) - 1) < 2e-3
        if own_filter:
            ck.expect(len(calls) == 1 and 'someFlag' in calls[0][0] and calls[0][1], 'own_filter_receives_the_table', **lab)
            keep = (nodes['someFlag'] > 3) & (nodes[g.PARAM_ISOLATED] == 0)
            edge[:] = False
        else:
            keep = np.array([nodes[g.PARAM_ISOLATED][k] == 0 and r3d[k] < rv[int(nodes[g.PARAM_TREE_ORDER][k])] and 10 ** lo < m[k] < 10 ** hi
                             and nodes[g.PARAM_TREE_INDEX][k] == t and r2d[k] < 0.5 * angle * kpa for k in range(n)], bool)
        got_ids = [h.id - (7 if own_params else 0) for h in subs]
        want_ids = nodes[g.PARAM_NODE_ID][keep]
        wobble = set(nodes[g.PARAM_NODE_ID][edge].tolist())
        if ck.expect(sorted(set(got_ids) - wobble) == sorted(set(want_ids.tolist()) - wobble) and len(set(got_ids)) == len(got_ids),
                     'subhalos_are_the_selected_nodes', got=sorted(got_ids)[:20], want=sorted(want_ids.tolist())[:20], n=n, **lab):
            where = {int(x): k for k, x in enumerate(nodes[g.PARAM_NODE_ID])}
            ks = [where[int(x)] for x in got_ids]
            if ks:
                ck.count('subhalos_made', len(ks))
                X = np.array([[h.x, h.y] for h in subs]).T * kpa
                R = r[:, ks]
                scale = np.linalg.norm(R, axis=0).max() ** 2
                ck.close(X.T @ X, R.T @ R - np.outer(e @ R, e @ R), 'projected_positions', rtol=2e-3, atol=1e-4 * scale, **lab)
                ck.close(np.outer(X[0], X[1]) - np.outer(X[1], X[0]), np.einsum('k,kij->ij', e, np.cross(R.T[:, None], R.T[None], axis=2).transpose(2, 0, 1)),
                         'projected_positions', rtol=2e-3, atol=1e-4 * scale, turn=True, **lab)
                if theta == 0 and phi == 0:
                    ck.close(X, R[:2], 'projected_positions', rtol=1e-3, atol=1e-9, axes=True, **lab)
                ck.close([h.r3d for h in subs], r3d[ks], 'distance_from_the_host', rtol=1e-9, **lab)
                ck.close([h.mass for h in subs], nodes[g.PARAM_MASS_INFALL][ks], 'mass_is_the_infall_mass', rtol=1e-12, **lab)
                ck.expect(all(h.z == 0.5 and h.mdef == 'TNFW' for h in subs), 'subhalos_in_the_lens_plane', **lab)
                c, rs = nodes[g.PARAM_CONCENTRATION][ks], 1e3 * nodes[g.PARAM_RADIUS_SCALE][ks]
                want = dict(rs=rs, r_trunc_kpc=1e3 * nodes[g.PARAM_TNFW_RADIUS_TRUNCATION][ks], rhos=4e-9 * nodes[g.PARAM_TNFW_RHO_S][ks], rv=c * rs)
                zi = nodes[g.PARAM_Z_LAST_ISOLATED][ks]
                if own_params:
                    want.update(rhos=1e7 + 0 * c, r_trunc_kpc=0.5 + 0 * c)
                    zi = zi + 1
                for k, v in want.items():
                    ck.close([h.params_physical[k] for h in subs], v, 'tabulated_profile', rtol=1e-9, quantity=k, **lab)
                ck.close([h.z_infall for h in subs], zi, 'tabulated_infall', rtol=1e-12, **lab)
                ck.close([h.c for h in subs], c, 'tabulated_concentration', rtol=1e-9, **lab)


def emulator(ck, rng, i):
    """halos from an emulator"""
    from pyHalo.PresetModels.external import DMSubhalosFromEmulator, JointLOSWithEmulator
    from pyHalo.preset_models import preset_model_from_name
    n = int(rng.choice([0, 1, 2, 12, 60]))
    m, c = 10 ** rng.uniform(6, 10, n), rng.uniform(3, 40, n)
    tab = [m, c, m * rng.uniform(0.01, 1, n), rng.uniform(0.6, 5, n), 10 ** rng.uniform(-4, -2, n), rng.normal(0, 5e-3, n), rng.normal(0, 5e-3, n)]
    snap, calls = copy.deepcopy(tab), []

    def data():
        calls.append(1)
        return tab
    zl = float(rng.uniform(0.15, 1.2))
    zs = float(rng.uniform(zl + 0.3, 3.5))
    angle = float(rng.uniform(3, 12))
    joint = i % 2 == 1
    preset, los = 'CDM', dict(sigma_sub=float(rng.choice([0, 0.01])), LOS_normalization=0.05, log_mlow=7.5, log_mhigh=9.5)
    lab = dict(n=n, zl=zl, zs=zs, angle=angle, joint=joint)
    ck.case(dict(kind='emulator', table=i, **lab))
    with ck.scenario('emulator', **lab):
        if joint:
            np.random.seed(5 + i)
            real = JointLOSWithEmulator(zl, zs, data, angle, preset, **los)
            np.random.seed(5 + i)
            alone = preset_model_from_name(preset)(zl, zs, cone_opening_angle_arcsec=angle, **los)
            rest = [h for h in real.halos if type(h).__name__ != 'TNFWFromParams']
            ck.expect([(h.mass, h.x, h.y, h.z, h.is_subhalo) for h in rest] == [(h.mass, h.x, h.y, h.z, h.is_subhalo) for h in alone.halos],
                      'line_of_sight_halos_are_those_of_the_preset', n_los=len(rest), want=len(alone.halos), **lab)
            subs = [h for h in real.halos if type(h).__name__ == 'TNFWFromParams']
        else:
            real = DMSubhalosFromEmulator(zl, zs, data, angle) if i % 4 else DMSubhalosFromEmulator(zl, zs, cone_opening_angle_arcsec=angle, emulator_data_function=data)
            subs = list(real.halos)
        ck.expect(len(calls) == 1, 'emulator_is_called_once', calls=len(calls), **lab)
        ck.expect(all(np.array_equal(a, b) for a, b in zip(tab, snap)), 'table_is_not_changed', **lab)
        g = real.geometry
        ck.expect(abs(g.cone_opening_angle - angle) < 1e-9 and real.lens_cosmo.z_lens == zl and real.lens_cosmo.z_source == zs, 'volume_of_the_realization', **lab)
        ap = real.lens_cosmo.cosmo.astropy
        if ck.expect(len(subs) == n, 'subhalos_are_the_selected_nodes', got=len(subs), **lab) and n:
            ck.count('subhalos_made', n)
            subs.sort(key=lambda h: h.mass)
            o = np.argsort(m)
            kpa = refs.kpa(ap, zl)
            ck.close([h.mass for h in subs], m[o], 'mass_is_the_infall_mass', rtol=1e-12, **lab)
            ck.close([[h.x * kpa, h.y * kpa] for h in subs], 1e3 * np.array([tab[5][o], tab[6][o]]).T, 'projected_positions', rtol=2e-3, **lab)
            ck.expect(all(h.z == zl and h.is_subhalo and h.mdef == 'TNFW' for h in subs), 'subhalos_in_the_lens_plane', **lab)
            rc = ap.critical_density(zl).to('Msun/kpc3').value
            rv = (3 * m[o] / (4 * np.pi * 200 * rc)) ** (1 / 3)
            rhos = m[o] / (4 * np.pi * (rv / c[o]) ** 3 * (np.log(1 + c[o]) - c[o] / (1 + c[o])))
            for k, v in dict(rv=rv, rs=rv / c[o], rhos=rhos, r_trunc_kpc=1e3 * tab[4][o]).items():
                ck.close([h.params_physical[k] for h in subs], v, 'tabulated_profile', rtol=3e-3, quantity=k, **lab)
            ck.close([h.z_infall for h in subs], tab[3][o], 'tabulated_infall', rtol=1e-12, **lab)
            ck.close([h.c for h in subs], c[o], 'tabulated_concentration', rtol=1e-9, **lab)


def body(ck):
    with tempfile.TemporaryDirectory(prefix='c18_', dir=os.environ.get('PYHALO_SCRATCH') or None) as tmp:
        for i in range(20 * ROUNDS):
            if ck.out_of_time(0.8):
                break
            rng = rng_for('round', i)
            seed_global('round', i)
            source = reading(ck, rng, tmp, i)
            for j in range(6):
                filters(ck, rng, 6 * i + j)
            for j in range(2):
                galacticus(ck, rng, source, 2 * i + j)
            emulator(ck, rng, i)
            os.unlink(source[0])


if __name__ == '__main__':
    vf.main('C18', RULE, body)
