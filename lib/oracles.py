"""independent reference computations used by the monitors (no pyHalo code in here)"""
import contextlib
import numpy as np
from scipy import integrate, stats

ARCSEC = 2 * np.pi / 360 / 3600


def log_integral(f, lo, hi, n=40000):
    """int_lo^hi f(m) dm on a logarithmic grid (Simpson)"""
    if hi <= lo:
        return 0.0
    if n % 2 == 0:
        n += 1
    s = np.linspace(np.log(lo), np.log(hi), n)
    m = np.exp(s)
    return float(integrate.simpson(f(m) * m, x=s))


def log_cdf(f, lo, hi, n=20001):
    s = np.linspace(np.log(lo), np.log(hi), n)
    m = np.exp(s)
    y = f(m) * m
    c = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(s))])
    c /= c[-1]
    return lambda x: np.interp(np.log(x), s, c)


def ks_p(samples, cdf):
    return float(stats.kstest(np.asarray(samples), cdf).pvalue)


def poisson_z(counts, mean):
    """z score of the mean of repeated counts, and of their dispersion, under Poisson(mean)"""
    counts = np.asarray(counts, float)
    n = len(counts)
    tot, lam = counts.sum(), max(mean, 0.0) * n
    if lam == 0:
        return (0.0 if tot == 0 else 99.0), 0.0
    hi_tail = stats.poisson.sf(tot - 1, lam)
    lo_tail = stats.poisson.cdf(tot, lam)
    zm = stats.norm.isf(max(min(hi_tail, lo_tail), 1e-300)) * (1 if hi_tail < lo_tail else -1)
    if max(hi_tail, lo_tail) >= 0.5 and min(hi_tail, lo_tail) >= 0.4:
        zm = 0.0
    if n > 5 and mean > 3:
        d = np.sum((counts - counts.mean()) ** 2) / mean  # ~ chi2(n-1)
        k = n - 1
        # Wilson-Hilferty
        zd = ((d / k) ** (1 / 3) - (1 - 2 / (9 * k))) / np.sqrt(2 / (9 * k))
    else:
        zd = 0.0
    return float(zm), float(zd)


def gnfw(x):
    return np.log1p(x) - x / (1 + x)


@contextlib.contextmanager
def recorded_means():
    """the expected numbers of objects that Poisson numbers are drawn from while the context is active"""
    out, orig = [], np.random.poisson

    def poisson(lam=1.0, size=None):
        n = orig(lam, size)
        out.append(float(np.sum(np.broadcast_to(lam, np.shape(n)))))
        return n
    np.random.poisson = poisson
    try:
        yield out
    finally:
        np.random.poisson = orig


@contextlib.contextmanager
def recorded_uniforms():
    """the vectors of uniform random numbers (scaled to 0..1) drawn while the context is active"""
    out = []
    orig = {k: getattr(np.random, k) for k in ('uniform', 'rand', 'random', 'random_sample')}

    def uniform(low=0.0, high=1.0, size=None):
        v = orig['uniform'](low, high, size)
        out.append(np.atleast_1d((v - np.asarray(low)) / (np.asarray(high) - np.asarray(low))).ravel())
        return v

    def plain(name):
        def f(*a, **k):
            v = orig[name](*a, **k)
            out.append(np.atleast_1d(v).ravel())
            return v
        return f
    np.random.uniform = uniform
    for k in ('rand', 'random', 'random_sample'):
        setattr(np.random, k, plain(k))
    try:
        yield out
    finally:
        for k, f in orig.items():
            setattr(np.random, k, f)
