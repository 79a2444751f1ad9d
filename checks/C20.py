import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
import json
import subprocess
import tempfile
import warnings
import numpy as np
from scipy.integrate import quad
from scipy.optimize import brentq
from vf import THOROUGH, SEED, rng_for, seed_global
from C09 import AX, SU, KM, KS, K24, Pit, held_normal, loss_pit, k24_pit

RULE = ('bound masses, infall masses, radii, concentrations and profile slopes for which truncation radius and density normalization are compared with the '
        'published transfer function and a numerical integration of the profile, after random histories of evaluations; every node of the mass loss tables; '
        'a case is one evaluation (or one table)')
ROUNDS = 14 if THOROUGH else 2
# Du et al. 2024: (alpha, beta, gamma, delta): A, B, C, D, E
FIT = {(1.0, 3.0, 0.0, 2.0): (-0.998429803, 0.000550290877, 1.2347154, 1.48242247, 0.6363923),
       (1.0, 3.0, 0.5, 2.0): (-0.19210388, 0.42676044, 1.46250084, 1.17122717, 0.45000174),
       (1.0, 3.0, 1.0, 2.0): (0.68492777, 0.66438857, 2.07766512, 0.75826635, 0.23376409),
       (1.0, 3.0, 1.5, 2.0): (0.9839032, 0.76882264, 2.51841765, -0.995103536, 0.000131454694),
       (1.0, 4.0, 0.0, 2.0): (39.42152817, 0.58827911, 4.05363252, 1.18519061, 0.73729078),
       (1.0, 4.0, 0.5, 2.0): (2.06550731, 0.38713431, 3.63592324, 0.7523579, 0.47771706),
       (1.0, 4.0, 1.0, 2.0): (13.98955016, 0.72217703, 5.00880454, 0.36838147, 0.22307797),
       (1.0, 4.0, 1.5, 2.0): (83.39811168, 1.21616656, 6.62016776, 0.28500656, 0.10528364),
       (2.0, 3.0, 0.0, 2.0): (-1.02415147, 0.00164345425, 2.41297704, 1.37068893, 0.83149579),
       (2.0, 4.0, 0.0, 2.0): (3.27271231e-06, -1.94602678, 5.84716369, 0.8383612, 1.23071929),
       (1.0, 3.0, 0.0, 3.0): (-0.93094144, 0.04703346, 0.76842857, 1.4020985, 0.63252747),
       (1.0, 3.0, 0.5, 3.0): (-0.2290658, 0.41234666, 1.39936438, 1.08663071, 0.45228951),
       (1.0, 3.0, 1.0, 3.0): (0.90933265, 0.63676731, 2.18508243, 1.43637351, -0.24907289),
       (1.0, 3.0, 1.5, 3.0): (0.83533898, 0.73399035, 2.43215333, 0.08092773, 0.08490512),
       (1.0, 4.0, 0.0, 3.0): (41.3266337, 0.60818104, 4.07045865, 1.08789526, 0.7279903),
       (1.0, 4.0, 0.5, 3.0): (0.42123475, -0.3816434, 3.62931001, 0.68794863, 0.48619566),
       (1.0, 4.0, 1.0, 3.0): (15.91886121, 0.71939954, 4.98186081, 0.33591171, 0.25084764),
       (1.0, 4.0, 1.5, 3.0): (104.0534991, 1.24696989, 6.62957129, 0.15135479, 0.12838997),
       (2.0, 3.0, 0.0, 3.0): (-0.964566747, -0.00237053865, 2.51094575, 1.31446961, 0.82402378),
       (2.0, 4.0, 0.0, 3.0): (5.79321402e-07, -1.62255246, 5.47069835, 0.7779873, 1.21267992)}
# bound mass of the untruncated reference halo (1e9 Msun inside the virial radius, c = 20.59)
BOUND0 = {(1.0, 3.0, 0.0): 1.1969934, (1.0, 3.0, 0.5): 1.1793903, (1.0, 3.0, 1.0): 1.1605002, (1.0, 3.0, 1.5): 1.1395515, (1.0, 4.0, 0.0): 1.0426536,
          (1.0, 4.0, 0.5): 1.035376, (1.0, 4.0, 1.0): 1.0281669, (1.0, 4.0, 1.5): 1.0210254, (2.0, 3.0, 0.0): 1.1343262, (2.0, 4.0, 0.0): 1.0194281}
C_REF = 20.587820037799197
NFW = (1.0, 3.0, 1.0, 2.0)
SHAPES = sorted(FIT)


def pieces(f, edges):
    s = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        n = max(2, int(np.ceil((b - a) / 3)))
        m = np.linspace(a, b, n + 1)
        s += sum(quad(f, p, q, epsabs=0, epsrel=1e-10)[0] for p, q in zip(m[:-1], m[1:]))
    return s


def density(u, a, b, g):
    x = np.exp(u)
    return 4 * np.pi * x ** (3 - g) * (1 + x ** a) ** ((g - b) / a)


def enclosed(x, a, b, g):
    return pieces(lambda u: density(u, a, b, g), [min(np.log(x), 0.0) - 25, np.log(x)] if x <= 1 else [-25.0, 0.0, np.log(x)])


def total(tau, a, b, g, d):
    x1, x2 = sorted((0.0, np.log(tau)))
    return pieces(lambda u: density(u, a, b, g) / (1 + np.exp(d * (u - np.log(tau)))), sorted(set([x1 - 25, x1, x2, x2 + 30])))


_RMAX, _ENC = {}, {}


def rmax(a, b, g):
    """radius of the largest circular velocity: M(<r) = r dM/dr"""
    if (a, b, g) not in _RMAX:
        _RMAX[a, b, g] = np.exp(brentq(lambda u: density(u, a, b, g) - enclosed(np.exp(u), a, b, g), np.log(0.05), np.log(30.0), xtol=1e-12))
    return _RMAX[a, b, g]


def ref_enclosed(x, *s):
    if (x, s) not in _ENC:
        _ENC[x, s] = enclosed(x, *s)
    return _ENC[x, s]


def fraction(mb, mv, c, s):
    """bound fraction of the reference halo with the same bound mass in units of the mass inside Rmax"""
    r = rmax(*s)
    y = mb / mv * enclosed(c, *s) / ref_enclosed(r, *s)
    return y * ref_enclosed(r, *s) / ref_enclosed(C_REF, *s) / BOUND0[s]


def f_fit(x, s):
    D, E = FIT[s][3:]
    return min(1.0, (1 + D) * x ** E / (1 + D * x ** (2 * E))) if x <= 1 else 1.0


def r_fit(x, s):
    A, B, C = FIT[s][:3]
    return (1 + A) * x ** B / (1 + A * x ** (2 * B)) / np.exp(C * (1 - x))


def draw(rng, s):
    mv, c, rv = float(10 ** rng.uniform(5, 11)), float(10 ** rng.uniform(np.log10(2.5), np.log10(80))), float(10 ** rng.uniform(-1, 2))
    low = -1.3 if s[:2] == (2.0, 4.0) else (-12 if s == NFW and rng.integers(0, 5) == 0 else -6)
    q = float(10 ** rng.uniform(low, 0)) if rng.integers(0, 6) else float(10 ** rng.uniform(0, 0.3))
    return q * mv, mv, rv, c


def kwargs(s):
    return dict(zip(('alpha', 'beta', 'gamma', 'delta'), s))


def feasible(mb, mv, c, s, f):
    if s[1] == 3.0:
        return True
    u = mb / mv * enclosed(c, *s[:3]) / f
    return u < 0.9 * total(1e4, *s)     # the mass of profiles that fall off steeply has an upper limit


def evaluate(ck, rng, k, seen):
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    s = NFW if rng.integers(0, 3) == 0 else SHAPES[int(rng.integers(0, len(SHAPES)))]
    mb, mv, rv, c = draw(rng, s)
    lab = dict(shape=s, bound=mb / mv, mass=mv, rvir=rv, c=c)
    f = f_fit(fraction(mb, mv, c, s[:3]), s)
    if not feasible(mb, mv, c, s, f):
        return
    ck.case(lab)
    kw = {} if s == NFW and rng.integers(0, 2) else kwargs(s)
    with ck.scenario('transfer_function', **lab):
        r, ft = tf.compute_r_te_and_f_t(mb, mv, rv, c, **kw)
        r, ft = float(r), float(ft)
        ck.close(ft, f, 'density_normalization', rtol=2e-5, **lab)
        ck.expect(0 < ft <= 1 and np.isfinite(r) and r > 0, 'physical_values', r_te=r, f_t=ft, **lab)
        m = ft * total(r * c / rv, *s) / enclosed(c, *s[:3]) * mv
        ck.close(m, mb, 'profile_has_the_bound_mass', rtol=1e-5 if s == NFW else 2e-4, r_te=r, f_t=ft, **lab)
        seen.append((s, (mb, mv, rv, c), r, ft))
        # the answer only depends on ratios
        q, p = float(10 ** rng.uniform(-3, 3)), float(10 ** rng.uniform(-2, 2))
        r2, f2 = tf.compute_r_te_and_f_t(mb * q, mv * q, rv * p, c, **kw)
        ck.close([float(r2) / p, float(f2)], [r, ft], 'depends_on_ratios_only', rtol=1e-5, **lab)
        if s == NFW:
            more, fm = tf.compute_r_te_and_f_t(mb * 1.02, mv, rv, c, **kw)
            ck.expect(float(more) > r and float(fm) >= ft, 'more_bound_mass_means_larger_radius', more=float(more), r_te=r, **lab)


def arrays(ck, rng, k):
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    from pyHalo.Halos.batch_halo_util import compute_r_te_and_f_t_vectorized as batch
    s = NFW if rng.integers(0, 2) == 0 else SHAPES[int(rng.integers(0, len(SHAPES)))]
    rows = []
    n = int(rng.integers(1, 12))
    while len(rows) < n:
        v = draw(rng, s)
        if s == NFW and k > 30 and rng.integers(0, 4) == 0:       # again and again beyond the range of the last table
            v = (v[0] * 10.0 ** -(10 + k / 15),) + v[1:]
        if feasible(v[0], v[1], v[3], s, f_fit(fraction(v[0], v[1], v[3], s[:3]), s)):
            rows.append(v)
    cols = [np.array(x) for x in zip(*rows)]
    keep = [x.copy() for x in cols]
    lab = dict(shape=s, n=len(rows), lowest=min(v[0] / v[1] for v in rows))
    ck.case(lab)
    with ck.scenario('arrays', **lab):
        one = np.array([[float(x) for x in tf.compute_r_te_and_f_t(*v, **kwargs(s))] for v in rows]).T
        r, f = tf.compute_r_te_and_f_t(*cols, **kwargs(s))
        ck.expect(np.shape(r) == np.shape(f) == (len(rows),), 'one_value_for_each_halo', **lab)
        ck.close(np.array([r, f]), one, 'arrays_and_numbers_agree', rtol=1e-5 if s == NFW else 2e-4, **lab)
        if s == NFW:
            r, f = batch(*cols)
            ck.close(np.array([r, f]), one, 'batch_and_single_agree', rtol=1e-5, **lab)
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, cols)), 'arguments_are_not_changed', **lab)


def pieces_of_the_model(ck, rng):
    """the functions the model is made of, also for slopes without closed expressions"""
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    get = lambda n: getattr(tf, n, None)
    enc, tot, rm, fr, ff, conv = [get(n) for n in ('_M_enclosed_generalized_NFW_dimensionless', '_M_total_generalized_NFW_Truncated_dimensionless',
                                                   '_R_max_generalized_NFW_dimensionless', '_r_te_Du_2024', '_f_t_Du_2024', 'Convert_to_reference_model')]
    own = [(float(rng.choice([1.0, 2.0, 0.7, 1.4])), float(rng.choice([3.0, 4.0, 3.4, 5.0])), float(rng.choice([0.0, 0.25, 0.5, 1.0, 1.2, 1.5])))
           for _ in range(12)]
    for s in sorted(BOUND0) + own:
        ck.case(dict(case='pieces', shape=s))
        with ck.scenario('pieces', shape=s):
            if enc:
                x = 10 ** rng.uniform(-2, 2, 4)
                ck.close(enc(x, *s), [enclosed(v, *s) for v in x], 'enclosed_mass', rtol=1e-6, shape=s)
            if rm:
                try:
                    v = rm(*s)
                except RuntimeError:        # no convergence for slopes the model is not calibrated for (they are refused anyway)
                    v = rmax(*s) if s not in BOUND0 else 0
                ck.close(v, rmax(*s), 'radius_of_the_largest_velocity', rtol=1e-7, shape=s)
            if tot:
                for d in (2.0, 3.0):
                    tau = 10 ** rng.uniform(-4, 3.5, 3)
                    want = [total(t, *s, d) for t in tau]
                    ck.close([tot(float(t), *s, d) for t in tau], want, 'total_mass', rtol=1e-6, shape=s, delta=d)
                    ck.close(tot(tau, *s, d), want, 'total_mass_of_arrays', rtol=1e-6, shape=s, delta=d)
            if s in BOUND0:
                for d in (2.0, 3.0):
                    x = np.append(10 ** rng.uniform(-1.3, 0, 5), 1.0)
                    if ff:
                        ck.close(ff(np.append(x, 1.7), *s, d), [f_fit(v, s + (d,)) for v in x] + [1.0], 'fit_of_the_normalization', rtol=1e-7, shape=s, delta=d)
                    if fr:
                        ck.close(fr(x, *s, d), [r_fit(v, s + (d,)) for v in x], 'fit_of_the_radius', rtol=1e-7, shape=s, delta=d)
                if conv:
                    r = rmax(*s)
                    ck.close(conv(*s), [ref_enclosed(r, *s) / ref_enclosed(C_REF, *s) / BOUND0[s], r / C_REF], 'reference_model', rtol=1e-6, shape=s)
    for bad in ((1.0, 3.0, 0.7), (3.0, 3.0, 1.0), (2.0, 3.0, 1.0), (1.0, 5.0, 1.0)):
        for d in (2.0, 3.0):
            try:
                tf.compute_r_te_and_f_t(1e7, 1e8, 10.0, 10.0, *bad, d)
                ck.fail('uncalibrated_profiles_are_refused', shape=bad, delta=d)
            except Exception:
                ck.count('uncalibrated_profiles_are_refused')
    try:
        tf.compute_r_te_and_f_t(1e7, 1e8, 10.0, 10.0, delta=2.5)
        ck.fail('uncalibrated_profiles_are_refused', delta=2.5)
    except Exception:
        ck.count('uncalibrated_profiles_are_refused')


def agreement_with_fit(ck):
    """the radius from the mass agrees with the fitted radius where the fit was made"""
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    s = NFW
    for x in (0.05, 0.1, 0.3, 0.6, 0.9):
        r, f = tf.compute_r_te_and_f_t(x * BOUND0[s[:3]], 1.0, 1.0, C_REF)
        ck.close(float(r), r_fit(x, s), 'radius_agrees_with_the_fit', rtol=0.35, x=x)


def abuse(rng):
    """evaluations no halo of a realization asks for; what they return or raise is not judged, only that they leave no trace"""
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    bad = [(1e12, 1e8, 10.0, 15.0), (np.inf, 1e8, 10.0, 15.0), (0.0, 1e8, 10.0, 15.0), (1e-25, 1e8, 10.0, 15.0), (1e9, 1e8, 10.0, 15.0), (np.nan, 1e8, 10.0, 15.0)]
    for j in rng.permutation(len(bad))[:3]:
        s = SHAPES[int(rng.integers(0, len(SHAPES)))] if rng.integers(0, 2) else NFW
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                tf.compute_r_te_and_f_t(*bad[j], **kwargs(s))
        except Exception:
            pass


def history(ck, rng, seen):
    """the same evaluations again in this process, and each as the first one of another process"""
    from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
    pick = [seen[int(i)] for i in rng.permutation(len(seen))[:60 if THOROUGH else 40]]
    for s, v, r, f in pick:
        abuse(rng)
        with ck.scenario('again', shape=s, args=v):
            r2, f2 = tf.compute_r_te_and_f_t(*v, **kwargs(s))
            ck.close([float(r2), float(f2)], [r, f], 'same_answer_whatever_was_evaluated_before', rtol=1e-5 if s == NFW else 2e-4, shape=s, args=v)
    from C14 import emulator  # noqa: F401  (the stand-in and the tree under test are set up on import)
    code = ('import sys, json, importlib\nsys.path.insert(0, %r)\nimport vf\n'
            'from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf\n'
            'out = []\n'
            'for s, v in json.load(open(%r)):\n'
            '    importlib.reload(tf)\n'
            '    out.append([float(x) for x in tf.compute_r_te_and_f_t(*v, *s)])\n'
            'print("RESULT" + json.dumps(out))\n')
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'in.json')
        with open(p, 'w') as fh:
            json.dump([[list(s), list(v)] for s, v, _, _ in pick], fh)
        lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib')
        o = subprocess.run([sys.executable, '-B', '-c', code % (lib, p)], capture_output=True, text=True, cwd=d, timeout=300)
    got = [l for l in o.stdout.splitlines() if l.startswith('RESULT')]
    if not ck.expect(len(got) == 1, 'runs_in_a_new_process', err=o.stderr[-500:]):
        return
    for (s, v, r, f), new in zip(pick, json.loads(got[0][6:])):
        ck.close([r, f], new, 'same_answer_as_in_a_new_process', rtol=1e-5 if s == NFW else 2e-4, shape=s, args=v)


def tables(ck, rng):
    """every node of the mass loss tables"""
    from pyHalo.Halos.galacticus_truncation import interp_mass_loss as im
    from pyHalo.Halos.batch_halo_util import galacticus_mass_loss_vectorized as batch
    pit = Pit()
    todo = [('t', im.InterpGalacticus()), ('z', im.InterpGalacticusZinfall()), ('m30', im.InterpGalacticusMW(30)), ('m50', im.InterpGalacticusMW(50)),
            ('m200', im.InterpGalacticusMW(200))]
    for nm, f in todo:
        ax = AX[nm]
        top = 8.0 if nm in 'tz' else ax[2][-1]
        ck.case(dict(table=nm))
        with ck.scenario('table', table=nm):
            n = held = 0
            for i, t in enumerate(ax[0]):
                for j, lc in enumerate(ax[1]):
                    for k, ch in enumerate(ax[2]):
                        if ch > top or (not THOROUGH and (i + j + k + SEED) % 2):
                            continue
                        off = rng.integers(0, 4) == 0
                        p = [float(t), float(lc), float(ch)]
                        if off:
                            p = [float(rng.uniform(a[0], min(a[-1], 8.0) if q == 2 and nm in 'tz' else a[-1])) for q, a in enumerate(ax)]
                        q = float(rng.choice([-1.5, -0.5, 0.5, 1.5]))
                        with held_normal(q) as h:
                            y = f(p[1], p[0], p[2])
                        n += 1
                        at = [max(p[0], 0.001) if nm == 'z' else p[0], p[1], p[2]]
                        a, b = float(SU[nm][0](at)[0]), float(SU[nm][1](at)[0])
                        if h[0] == 1:
                            held += 1
                            ck.close(y, min(float(np.sinh((q - a) / b)), 0.0), 'tabulated_mass_loss', rtol=1e-6, atol=1e-9, table=nm, node=[i, j, k], off=bool(off), p=p, q=q)
                        else:
                            pit.add('table ' + nm, loss_pit(nm, *at, y, rng), t=p[0], c=p[1], chost=p[2])
            ck.note('nodes_' + nm, dict(evaluated=n, with_fixed_quantile=held))
            if nm in 'tz':
                g = [rng.uniform(ax[q][0], ax[q][-1], 1500) for q in (0, 1)]
                for ch in rng.uniform(4, 8, 3):
                    y = batch(f, g[1], np.maximum(g[0], 0.001), float(ch))
                    ck.expect(np.shape(y) == (1500,) and np.all(y <= 0), 'batch_mass_loss', table=nm)
                    for t, lc, v in zip(g[0], g[1], y):
                        pit.add('batch ' + nm, loss_pit(nm, t, lc, ch, v, rng), t=t, c=lc, chost=ch)
    f = im.InterpGalacticusKeeley24()
    ck.case(dict(table='keeley'))
    with ck.scenario('table', table='keeley'):
        P = np.array(np.meshgrid(*K24, indexing='ij')).reshape(3, -1).T
        P = P[::1 if THOROUGH else 3]
        Q = np.array([rng.uniform(a[0], a[-1], 300) for a in K24]).T
        for t, ch, lc in np.concatenate([P, Q]):
            t, ch, lc = float(t), float(ch), float(lc)
            ck.close([f.evaluate_mean_mass_loss(lc, t, ch), f.evaluate_scatter_dex(lc, t, ch)], [float(KM([t, ch, lc])[0]), float(KS([t, ch, lc])[0])],
                     'tabulated_mean_and_scatter', rtol=1e-7, atol=1e-9, p=[t, ch, lc])
            y = f(lc, t, ch)
            pit.add('table keeley', k24_pit(t, lc, ch, y, rng), t=t, c=lc, chost=ch)
        a = f.evaluate_mean_mass_loss(Q[:, 2], Q[:, 0], Q[:, 1])
        b = f.evaluate_scatter_dex(Q[:, 2], Q[:, 0], Q[:, 1])
        ck.close(a, KM(Q), 'tabulated_mean_of_arrays', rtol=1e-7, atol=1e-9)
        ck.close(b, KS(Q), 'tabulated_scatter_of_arrays', rtol=1e-7, atol=1e-9)
    pit.judge(ck)


def body(ck):
    warnings.simplefilter('ignore')
    seed_global('tables')
    tables(ck, rng_for('tables'))
    pieces_of_the_model(ck, rng_for('pieces'))
    agreement_with_fit(ck)
    for i in range(ROUNDS):
        if ck.out_of_time(0.7):
            break
        r = rng_for('round', i)
        seen = []
        for k in range(220):
            if r.integers(0, 5) == 0:
                abuse(r)
            evaluate(ck, r, k, seen)
            if k % 8 == 0:
                arrays(ck, r, k)
        history(ck, r, seen)


if __name__ == '__main__':
    vf.main('C20', RULE, body)
