import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import numpy as np
from vf import THOROUGH, rng_for, seed_global
from oracles import log_integral, log_cdf, ks_p, poisson_z, recorded_means, recorded_uniforms

RULE = ('random mass-function configurations (class, range, slope, amplitude, turnover, Poisson flag, redshift); '
        'a case is non-trivial when at least one object was drawn or the range is degenerate on purpose')
PKS = 1e-7
ZMAX = 5.6


def judge_draws(ck, mf, lo, hi, poisson, label, nrep, min_sample, thinned):
    """monitor repeated draws of one mass function object"""
    draws = []
    counts = []
    for _ in range(nrep):
        m = np.atleast_1d(mf.draw())
        counts.append(len(m))
        draws.append(m)
    allm = np.concatenate(draws) if draws else np.array([])
    ck.expect(np.all(np.isfinite(allm)) and np.all(allm >= lo * (1 - 1e-9)) and np.all(allm <= hi * (1 + 1e-9)),
              'mass_within_requested_range', label=label, lo=lo, hi=hi,
              got=[float(allm.min()), float(allm.max())] if len(allm) else [])
    mean = log_integral(mf.evaluate, lo, hi)
    if poisson or thinned:
        zm, zd = poisson_z(counts, mean)
        ck.expect(abs(zm) < ZMAX, 'mean_count_is_integral', label=label, z=zm, want=mean, got=float(np.mean(counts)))
        if poisson:
            ck.expect(abs(zd) < ZMAX, 'count_is_poisson', label=label, z=zd, want=mean)
    else:
        ck.expect(all(abs(c - mean) <= 0.5 + 1e-4 * mean for c in counts), 'deterministic_count', label=label,
                  want=mean, got=counts[:5])
    # mass spectrum
    if mean > 0 and mean * 400 > min_sample:
        k = 0
        while len(allm) < min_sample and k < 400:
            extra = np.atleast_1d(mf.draw())
            allm = np.concatenate([allm, extra])
            k += 1
        if len(allm) > 100:
            p = ks_p(allm, log_cdf(mf.evaluate, lo, hi))
            ck.expect(p > PKS, 'spectrum_follows_mass_function', label=label, p=p, n=len(allm))
            # low/high ends separately: the KS statistic is blind to the sparse high-mass tail
            cdf = log_cdf(mf.evaluate, lo, hi)
            for q in (0.02, 0.98, 0.999):
                n_tail = int(np.sum(cdf(allm) > q))
                e = (1 - q) * len(allm)
                v = len(allm) * q * (1 - q)
                if v > 25:
                    ck.expect(abs(n_tail - e) / np.sqrt(v) < ZMAX, 'tail_counts', label=label, q=q, got=n_tail, want=e)
    return len(allm)


def power_cdf(m, lo, hi, idx):
    """cumulative distribution of a power law between lo and hi"""
    e = 1 + idx
    if abs(e) < 1e-9:
        return np.log(m / lo) / np.log(hi / lo)
    return np.expm1(e * np.log(m / lo)) / np.expm1(e * np.log(hi / lo))


def judge_quantiles(ck, mf, lo, hi, idx, norm, poisson, supp, label):
    """one draw against the random numbers it was made from: the masses are the quantiles of the unsuppressed power
    law at one vector of uniform numbers, of which a second vector keeps the share the suppression leaves. Draws that
    use their random numbers in another way are only counted; the statistics above decide those."""
    with recorded_uniforms() as vecs, recorded_means() as means:
        m = np.sort(np.atleast_1d(mf.draw()))
    vecs = [v for v in vecs if len(v)]
    if poisson and len(means) == 1:
        parent = norm * log_integral(lambda q: q ** idx, lo, hi)
        if supp is None or (vecs and len(vecs) == 2):
            ck.close(means[0], parent, 'expected_number_handed_to_the_draw', rtol=1e-4, label=label)
    if len(vecs) != (1 if supp is None else 2) or len({len(v) for v in vecs}) != 1 \
            or (supp is None and len(vecs[0]) != len(m)):
        ck.count('drawn_in_another_way')
        return
    if supp is None:
        c = power_cdf(m, lo, hi, idx)
        gap = min(float(np.max(np.abs(c - np.sort(w)))) for w in (vecs[0], 1 - vecs[0]))
        ck.expect(gap < 1e-4, 'masses_are_quantiles', label=label, gap=gap, n=len(m))
        return
    grid = np.logspace(np.log10(lo), np.log10(hi), 4000)
    cg = power_cdf(grid, lo, hi, idx)
    gaps = []
    for first, second in ((0, 1), (1, 0)):
        for a in (vecs[first], 1 - vecs[first]):
            parent = np.exp(np.interp(a, cg, np.log(grid)))
            s = supp(parent)
            for b in (vecs[second], 1 - vecs[second]):
                # numbers this close to the threshold may fall on either side
                near = int(np.sum(np.abs(b - s) < 1e-4))
                kept = np.sort(a[b < s])
                if abs(len(kept) - len(m)) > near:
                    gaps.append(1.0)
                elif len(kept) != len(m):
                    gaps.append(0.0)
                else:
                    gaps.append(float(np.max(np.abs(np.sort(power_cdf(m, lo, hi, idx)) - kept))) if len(m) else 0.0)
    ck.expect(min(gaps) < (1e-4 if len(vecs[0]) * 1e-4 < 0.5 else 1e-2), 'masses_are_kept_quantiles', label=label,
              gap=min(gaps), n=len(m))


def body(ck):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenMixedWDM, ShethTormenTurnover
    from pyHalo.mass_function_models import preset_mass_function_models
    rng = rng_for('C01')
    seed_global('C01')
    ncfg = 160 if THOROUGH else 36
    nrep = 60
    minS = 200000 if THOROUGH else 40000

    # --- power laws and their suppressed versions
    for i in range(ncfg):
        lo = rng.uniform(5.0, 8.5)
        hi = lo + rng.choice([0.004, 0.05, 0.3, 1.0, 2.0, 4.0, 5.0, 7.5])
        idx = float(rng.choice([-1.0, -2.0, -1.9, -1.5, -2.3, rng.uniform(-2.4, -0.6), -0.5, -1.85,
                                rng.choice([-1.0, -2.0]) + rng.uniform(0.01, 0.1) * rng.choice([-1, 1])]))
        target = float(rng.choice([0.3, 4.0, 60.0, 800.0, 4000.0]))
        unit = log_integral(lambda m: m ** idx, 10 ** lo, 10 ** hi)
        norm = target / unit
        poisson = bool(rng.integers(0, 2))
        lab = dict(lo=lo, hi=hi, idx=idx, n=target, poisson=poisson)
        mf = CDMPowerLaw(lo, hi, idx, poisson, norm)
        m = np.logspace(lo, hi, 50)
        ck.close(mf.evaluate(m), norm * m ** idx, 'evaluate_is_power_law', rtol=1e-9, label=lab)
        ck.close(mf.n_mean, target, 'n_mean_is_integral', rtol=1e-5, label=lab)
        ck.close(mf.first_moment, log_integral(lambda m: m * norm * m ** idx, 10 ** lo, 10 ** hi),
                 'first_moment_is_integral', rtol=1e-5, label=lab)
        n = judge_draws(ck, mf, 10 ** lo, 10 ** hi, poisson, ('CDM', lab), nrep, minS, False)
        for _ in range(4):
            judge_quantiles(ck, mf, 10 ** lo, 10 ** hi, idx, norm, poisson, None, ('CDM', lab))
        ck.case(dict(cls='CDMPowerLaw', **lab), n > 0)

        mc = rng.uniform(lo - 1.5, hi + 0.5)
        a, b, c = rng.choice([1.0, 36.15, 1.95, rng.uniform(0.5, 5)]), rng.choice([1.0, 2.5, 0.8]), rng.choice(
            [-1.3, -0.2, -1.0, -2.2, -0.3])
        f = float(rng.choice([0.0, 0.3, 0.8, 1.0]))
        lab2 = dict(lab, mc=mc, a=a, b=b, c=c, f=f)
        w = WDMPowerLaw(lo, hi, idx, poisson, norm, mc, a, b, c)
        x = WDMPowerLaw(lo, hi, idx, poisson, norm, -30.0, a, b, c)
        mix = MixedWDMPowerLaw(lo, hi, idx, poisson, norm, mc, a, b, c, f)
        mix1 = MixedWDMPowerLaw(lo, hi, idx, poisson, norm, mc, a, b, c, 1.0)
        mix0 = MixedWDMPowerLaw(lo, hi, idx, poisson, norm, mc, a, b, c, 0.0)
        supp = (1 + a * (10 ** mc / m) ** b) ** c
        ck.close(w.turnover(m), supp, 'turnover_has_documented_form', rtol=1e-9, label=lab2)
        ck.close(w.evaluate(m), norm * m ** idx * supp, 'suppressed_evaluate', rtol=1e-9, label=lab2)
        ck.close(mix.evaluate(m), norm * m ** idx * (f + (1 - f) * np.sqrt(supp)) ** 2, 'mixed_evaluate',
                 rtol=1e-9, label=lab2)
        ck.close(mix1.evaluate(m), mf.evaluate(m), 'mixed_fraction_one_is_cdm', rtol=1e-9, label=lab2)
        ck.close(mix0.evaluate(m), w.evaluate(m), 'mixed_fraction_zero_is_wdm', rtol=1e-9, label=lab2)
        ck.close(x.evaluate(m), mf.evaluate(m), 'no_cutoff_is_cdm', rtol=1e-9, label=lab2)
        for nm, obj in (('wdm', w), ('mixed', mix)):
            ck.close(obj.n_mean, log_integral(obj.evaluate, 10 ** lo, 10 ** hi), 'n_mean_is_integral', rtol=2e-3,
                     label=(nm, lab2))
            ck.close(obj.first_moment, log_integral(lambda q: q * obj.evaluate(q), 10 ** lo, 10 ** hi),
                     'first_moment_is_integral', rtol=2e-3, label=(nm, lab2))
            ck.expect(obj.n_mean <= mf.n_mean * (1 + 1e-9) and obj.first_moment <= mf.first_moment * (1 + 1e-9),
                      'suppressed_never_exceeds_cdm', label=(nm, lab2))
            n = judge_draws(ck, obj, 10 ** lo, 10 ** hi, poisson, (nm, lab2), nrep, minS, True)

            def left(q):
                t = (1 + a * (10 ** mc / q) ** b) ** c
                return t if nm == 'wdm' else (f + (1 - f) * np.sqrt(t)) ** 2
            for _ in range(4):
                judge_quantiles(ck, obj, 10 ** lo, 10 ** hi, idx, norm, poisson, left, (nm, lab2))
            ck.case(dict(cls=nm, **lab2), n > 0)

    # --- degenerate ranges draw nothing
    for cls, extra in ((CDMPowerLaw, ()), (WDMPowerLaw, (7.5, 1.95, 0.8, -1.0)), (MixedWDMPowerLaw, (7.5, 1.95, 0.8, -1.0, 0.4))):
        for lo, hi in ((8.0, 8.0), (9.0, 7.0)):
            for p in (True, False):
                with ck.scenario('empty_range', lo=lo, hi=hi):
                    mf = cls(lo, hi, -1.9, p, 1e8, *extra)
                    ck.expect(len(np.atleast_1d(mf.draw())) == 0 and mf.n_mean == 0 and mf.first_moment == 0,
                              'empty_range_is_empty', cls=cls.__name__, lo=lo, hi=hi, poisson=p, n=float(mf.n_mean), m=float(mf.first_moment))
                ck.case(dict(cls=cls.__name__, lo=lo, hi=hi, poisson=p))

    # --- Gaussian in log10 mass
    for i in range(40 if THOROUGH else 12):
        n, mu, sg, p = float(rng.choice([0.4, 3.0, 50.0, 3000.0])), rng.uniform(3, 9), rng.uniform(0.01, 0.8), bool(
            rng.integers(0, 2))
        g = Gaussian(n, mu, sg, draw_poisson=p)
        d = [np.atleast_1d(g.draw()) for _ in range(60)]
        cnt = [len(q) for q in d]
        lab = dict(n=n, mu=mu, sigma=sg, poisson=p)
        if p:
            zm, zd = poisson_z(cnt, n)
            ck.expect(abs(zm) < ZMAX and abs(zd) < ZMAX, 'gaussian_count_poisson', z=[zm, zd], label=lab)
        else:
            ck.expect(all(abs(c - n) <= 0.5 for c in cnt), 'gaussian_count_deterministic', label=lab, got=cnt[:4])
        x = np.log10(np.concatenate(d)) if sum(cnt) else np.array([])
        if len(x) > 100:
            from scipy import stats
            pv = stats.kstest(x, stats.norm(mu, sg).cdf).pvalue
            ck.expect(pv > PKS, 'gaussian_spectrum', p=pv, label=lab)
        ck.close(g.first_moment, np.exp(mu * np.log(10) + (sg * np.log(10)) ** 2 / 2), 'gaussian_first_moment',
                 rtol=1e-8, label=lab)
        ck.case(dict(cls='Gaussian', **lab), len(x) > 0)

    # --- delta function
    for i in range(40 if THOROUGH else 12):
        m, V, n, p = 10 ** rng.uniform(2, 8), 10 ** rng.uniform(-3, 3), float(
            rng.choice([0.2, 2.4, 77.0, 4000.0])), bool(rng.integers(0, 2))
        rho = n * m / V
        g = DeltaFunction(m, V, rho, p)
        d = [np.atleast_1d(g.draw()) for _ in range(80)]
        cnt = [len(q) for q in d]
        lab = dict(m=m, V=V, n=n, poisson=p)
        ck.close(g.n_mean, n, 'delta_mass_budget', rtol=1e-9, label=lab)
        ck.expect(all(np.allclose(q, m, rtol=1e-12) for q in d), 'delta_single_mass', label=lab)
        if p:
            zm, zd = poisson_z(cnt, n)
            ck.expect(abs(zm) < ZMAX and abs(zd) < ZMAX, 'delta_count_poisson', z=[zm, zd], label=lab)
        else:
            ck.expect(all(abs(c - n) <= 0.5 for c in cnt), 'delta_count_deterministic', label=lab, got=cnt[:4])
        ck.case(dict(cls='Delta', **lab), sum(cnt) > 0)

    # --- line-of-sight mass functions vs colossus, with the h factors redone here
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    from colossus.lss.mass_function import massFunction
    for H0, Om in ((67.4, 0.315), (74.0, 0.27)):
        cosmo = Cosmology(cosmo_kwargs={'H0': H0, 'Om0': Om})
        zs, zl = 2.0, 0.5
        geo = Geometry(cosmo, zl, zs, 6.0, 'DOUBLE_CONE')
        h = cosmo.h
        for k in range(20 if THOROUGH else 6):
            z = rng.uniform(0.02, 1.9)
            dz = float(rng.choice([0.01, 0.02, 0.05]))
            piv, LN, dpl = float(rng.choice([1e8, 1e7])), rng.uniform(0.3, 3.0), float(rng.choice([0.0, -0.1, 0.15]))
            lo, hi = 6.0, 10.0
            kw = dict(log_mlow=lo, log_mhigh=hi, m_pivot=piv, LOS_normalization=LN, delta_power_law_index=dpl,
                      draw_poisson=True, log_mc=rng.uniform(6, 9), a_wdm=2.3, b_wdm=0.8, c_wdm=-1.0, mixed_DM_frac=0.4)
            kw0 = dict(kw)
            st = ShethTormen.from_redshift(z, dz, geo, kw)
            wd = ShethTormenTurnover.from_redshift(z, dz, geo, kw)
            mx = ShethTormenMixedWDM.from_redshift(z, dz, geo, kw)
            ck.expect(kw == kw0, 'caller_kwargs_untouched', before=kw0, after=kw)
            V = geo.volume_element_comoving(z, dz)
            _ = cosmo.colossus
            m = np.logspace(lo + 0.2, hi - 0.2, 30)
            # comoving dN/dm [Mpc^-3 Msun^-1]; colossus: masses in Msun/h, densities in (Mpc/h)^-3
            ref = massFunction(m * h, z, q_out='dndlnM', model='sheth99') * h ** 3 / m * V
            want = LN * ref * (m / piv) ** dpl
            lab = dict(z=z, dz=dz, piv=piv, LN=LN, dpl=dpl, H0=H0, Om=Om)
            ck.close(st.evaluate(m), want, 'los_matches_sheth_tormen', rtol=0.12, label=lab)
            piv_amp = np.exp(np.mean(np.log(st.evaluate(m) / want)))
            ck.close(piv_amp, 1.0, 'los_amplitude', rtol=0.02, label=lab)
            s = (1 + 2.3 * (10 ** kw['log_mc'] / m) ** 0.8) ** -1.0
            ck.close(wd.evaluate(m), st.evaluate(m) * s, 'los_turnover_ratio', rtol=1e-8, label=lab)
            ck.close(mx.evaluate(m), st.evaluate(m) * (0.4 + 0.6 * np.sqrt(s)) ** 2, 'los_mixed_ratio', rtol=1e-8,
                     label=lab)
            kw2 = dict(kw, LOS_normalization=2 * LN)
            for cls, o in ((ShethTormen, st), (ShethTormenTurnover, wd), (ShethTormenMixedWDM, mx)):
                ck.close(cls.from_redshift(z, dz, geo, kw2).n_mean, 2 * o.n_mean, 'los_normalization_linear',
                         rtol=1e-6, label=lab)
                kw3 = dict(kw, LOS_normalization=0.0)
                ck.expect(len(cls.from_redshift(z, dz, geo, kw3).draw()) == 0, 'zero_normalization_draws_nothing',
                          label=lab)
                # tilting the slope keeps the amplitude at the pivot mass
                kw4 = dict(kw, delta_power_law_index=dpl - 0.25)
                t = cls.from_redshift(z, dz, geo, kw4)
                ck.close(t.evaluate(piv), o.evaluate(piv), 'pivot_amplitude_fixed', rtol=1e-8, label=lab)
                ck.close(t.evaluate(piv * 10) / o.evaluate(piv * 10), 10 ** -0.25, 'tilt_is_power', rtol=1e-8,
                         label=lab)
                n = judge_draws(ck, o, 10 ** lo, 10 ** hi, True, (cls.__name__, lab), 40, 8000, True)
                ck.case(dict(cls=cls.__name__, **lab), n > 0)
            # point-mass populations on the line of sight: linear in the budget, inverse in the mass
            kd = dict(LOS_normalization=LN, mass_fraction=0.3, mass=1e5, draw_poisson=True)
            d1 = DeltaFunction.from_redshift(z, dz, geo, kd)
            d2 = DeltaFunction.from_redshift(z, dz, geo, dict(kd, mass_fraction=0.6))
            d3 = DeltaFunction.from_redshift(z, dz, geo, dict(kd, mass=2e5))
            ck.close([d2.n_mean, d3.n_mean], [2 * d1.n_mean, 0.5 * d1.n_mean], 'delta_budget_scaling', rtol=1e-9,
                     label=lab)

    # --- named mass functions
    table = {'SHMF_LOVELL2020': (36.15, 2.5, -0.2), 'LOVELL2020': (1.95, 0.8, -1.0), 'SHMF_LOVELL2014': (1, 1, -1.3),
             'LOVELL2014': (1, 1, -1.3), 'SCHIVE2016': (1, 1.1, -2.2), 'SHMF_SCHIVE2016': (1, 1.1, -2.2)}
    shmf = ('SHMF_LOVELL2020', 'SHMF_LOVELL2014', 'SHMF_SCHIVE2016')
    for name, (a, b, c) in table.items():
        kw = {'log_mc': 7.7, 'nested': {'x': 1}}
        cls, out = preset_mass_function_models(name, kw)
        ck.expect(kw == {'log_mc': 7.7, 'nested': {'x': 1}}, 'caller_kwargs_untouched', name=name)
        ck.close([out['a_wdm'], out['b_wdm'], out['c_wdm']], [a, b, c], 'published_coefficients', name=name)
        ck.expect(out.get('log_mc') == 7.7, 'named_model_keeps_kwargs', name=name)
        ck.expect(issubclass(cls, WDMPowerLaw) and (cls is WDMPowerLaw) == (name in shmf), 'named_model_class',
                  name=name, got=cls.__name__)
        ck.case(dict(preset=name))
    for name, cl in (('POWER_LAW', CDMPowerLaw), ('POWER_LAW_TURNOVER_SHMF', WDMPowerLaw),
                     ('POWER_LAW_TURNOVER', ShethTormenTurnover), ('SHMF_MIXED_WDM_TURNOVER', MixedWDMPowerLaw),
                     ('MIXED_WDM_TURNOVER', ShethTormenMixedWDM)):
        kw = {'a_wdm': 1.0, 'q': [1, 2]}
        cls, out = preset_mass_function_models(name, kw)
        ck.expect(cls is cl and out == kw, 'named_model_class', name=name, got=cls.__name__)
        ck.case(dict(preset=name))
    for slope in np.linspace(-1.0, -6.0, 16 if THOROUGH else 6):
        beta = -slope / (1 - 0.5 ** 0.2) / 5.0
        want = np.array((0.2651, 1.638, 16.51)) * beta ** np.array((0.3656, -0.0994, -0.9466))
        for name, cl in (('STUCKER', ShethTormenTurnover), ('STUCKER_SHMF', WDMPowerLaw)):
            cls, out = preset_mass_function_models(name, {'dlogT_dlogk': slope, 'log_mc': 8.0})
            ck.expect(cls is cl and 'dlogT_dlogk' not in out, 'named_model_class', name=name)
            w = WDMPowerLaw(6.0, 10.0, -1.9, True, 1.0, 8.0, out['a_wdm'], out['b_wdm'], out['c_wdm'])
            ck.close(w.turnover(1e8 * want), [0.2, 0.5, 0.8], 'suppression_mass_scales', rtol=0.03, slope=slope)
            ck.case(dict(preset=name, slope=slope))
    for bad in ('NOT_A_MODEL', 'power_law', ''):
        try:
            preset_mass_function_models(bad, {})
            ck.fail('unknown_name_rejected', name=bad)
        except Exception:
            ck.count('unknown_name_rejected')


if __name__ == '__main__':
    vf.main('C01', RULE, body)
