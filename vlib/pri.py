"""Priors as data: generators, builders, independent log-densities and CDFs."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

import radvel
from . import gen, ref, rvx

KINDS = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'Numerical', 'UserDefined', 'Baseline']


@st.composite
def spec(draw, param, center=None, kinds=KINDS, proper=False):
    """A prior on `param`; centred near `center` (a value) most of the time if given."""
    kind = draw(st.sampled_from(list(kinds)))
    c = center if center is not None else draw(gen.fl(-20, 20))
    d = dict(kind=kind, param=param)
    if kind == 'Gaussian':
        d.update(mu=c + draw(gen.fl(-3, 3)), sigma=draw(gen.logu(0.05, 50)))
    elif kind == 'HardBounds':
        w = draw(gen.logu(0.1, 100))
        lo = c - w * draw(gen.fl(-0.2, 1.2))
        d.update(lo=lo, hi=lo + w)
    elif kind == 'Jeffreys':
        lo = abs(c) * draw(gen.logu(0.01, 2)) + 1e-3
        d.update(lo=lo, hi=lo * draw(gen.logu(1.1, 1000)))
    elif kind == 'ModifiedJeffreys':
        knee = c - draw(gen.fl(0.5, 10))
        lo = knee + draw(gen.logu(0.01, 3))
        d.update(knee=knee, lo=lo, hi=lo + draw(gen.logu(0.1, 100)))
    elif kind == 'Numerical':
        n = draw(st.integers(5, 60))
        d.update(values=[c + draw(st.just(0.0)) + 4 * (x - 0.5) for x in gen.scatter(n, draw(st.integers(0, 1000)))])
    elif kind == 'UserDefined':
        d.update(mu=c + draw(gen.fl(-3, 3)), s=draw(gen.logu(0.1, 20)), transform=True if proper else draw(st.booleans()))
    elif kind == 'Baseline':
        d.update(baseline=draw(gen.logu(1, 1000)), duration=draw(st.sampled_from([0.0, 0.2, 3.0])))
    return d


class Logistic(object):
    """A user's prior: the logistic density, with its inverse CDF."""

    def __init__(self, mu, s):
        self.mu, self.s = mu, s

    def __call__(self, x):
        z = (x[0] - self.mu) / self.s
        return -z - math.log(self.s) - 2 * np.log1p(np.exp(-z)) if z > 0 else z - math.log(self.s) - 2 * np.log1p(np.exp(z))

    def transform(self, u):
        return self.mu + self.s * (np.log(u) - np.log1p(-u))


def make(d):
    k, p = d['kind'], d['param']
    R = radvel.prior
    if k == 'Gaussian':
        return R.Gaussian(p, d['mu'], d['sigma'])
    if k == 'HardBounds':
        return R.HardBounds(p, d['lo'], d['hi'])
    if k == 'Jeffreys':
        return R.Jeffreys(p, d['lo'], d['hi'])
    if k == 'ModifiedJeffreys':
        return R.ModifiedJeffreys(p, d['lo'], d['hi'], d['knee'])
    if k == 'Numerical':
        return R.NumericalPrior([p], np.array(d['values']))
    if k == 'UserDefined':
        f = Logistic(d['mu'], d['s'])
        return R.UserDefinedPrior([p], f, 'logistic', transform_func=f.transform if d['transform'] else None)
    if k == 'Baseline':
        return R.InformativeBaselinePrior(p, d['baseline'], duration=d['duration'])
    raise KeyError(k)


def kde(values):
    v = np.asarray(values, float)
    h = np.sqrt(np.var(v, ddof=1)) * len(v) ** (-0.2)
    return v, h


def logpdf(d, x):
    k = d['kind']
    if k == 'Gaussian':
        return -0.5 * ((x - d['mu']) / d['sigma']) ** 2 - math.log(d['sigma'] * math.sqrt(2 * math.pi))
    if k == 'HardBounds':
        return -math.log(d['hi'] - d['lo']) if d['lo'] < x < d['hi'] else -math.inf
    if k == 'Jeffreys':
        return -math.log(x) - math.log(math.log(d['hi'] / d['lo'])) if d['lo'] <= x <= d['hi'] else -math.inf
    if k == 'ModifiedJeffreys':
        if not d['lo'] <= x <= d['hi']:
            return -math.inf
        return -math.log(x - d['knee']) - math.log(math.log((d['hi'] - d['knee']) / (d['lo'] - d['knee'])))
    if k == 'Numerical':
        v, h = kde(d['values'])
        z = -0.5 * ((x - v) / h) ** 2
        m = z.max()
        return float(m + np.log(np.mean(np.exp(z - m))) - math.log(h * math.sqrt(2 * math.pi)))
    if k == 'UserDefined':
        z = abs(x - d['mu']) / d['s']
        return float(-z - math.log(d['s']) - 2 * np.log1p(np.exp(-z)))
    if k == 'Baseline':
        per = math.exp(x) if d['param'].startswith('logper') else x
        B, td = d['baseline'], d['duration']
        return 0.0 if per - td <= B else math.log((B + td) / per)
    raise KeyError(k)


def near_edge(d, x):
    """Within rounding of the end of a finite support (or of the knee of the baseline prior)."""
    for e in ('lo', 'hi'):
        if e in d and abs(x - d[e]) <= 1e-9 * (abs(x) + abs(d[e]) + 1e-6):
            return True
    return False


def cdf(d, x):
    k = d['kind']
    if k == 'Gaussian':
        return ndtr((x - d['mu']) / d['sigma'])
    if k == 'HardBounds':
        return np.clip((x - d['lo']) / (d['hi'] - d['lo']), 0, 1)
    if k == 'Jeffreys':
        return np.log(x / d['lo']) / math.log(d['hi'] / d['lo'])
    if k == 'ModifiedJeffreys':
        return np.log((x - d['knee']) / (d['lo'] - d['knee'])) / math.log((d['hi'] - d['knee']) / (d['lo'] - d['knee']))
    if k == 'UserDefined':
        return 1 / (1 + np.exp(-(x - d['mu']) / d['s']))
    raise KeyError(k)


# ------------------------------------------------------------ priors on several parameters (constraints)

@st.composite
def constraint(draw, basis, npl):
    """EccentricityPrior, PositiveKPrior or SecondaryEclipsePrior as data."""
    k = draw(st.sampled_from(['ecc', 'ecc', 'ecc', 'k', 'eclipse']))
    if k == 'ecc':
        planets = draw(st.integers(1, npl))
        if draw(st.sampled_from([False, True, True])):
            planets = draw(st.permutations(range(1, npl + 1)))[:planets]
            if draw(st.booleans()):
                planets = sorted(planets, reverse=True)
        n = planets if isinstance(planets, int) else len(planets)
        lim = st.one_of(gen.fl(0.05, 0.99), st.just(0.99))
        lims = draw(st.sampled_from(['none', 'one', 'list', 'list']))
        lims = None if lims == 'none' else draw(lim) if lims == 'one' else draw(st.lists(lim, min_size=n, max_size=n))
        return dict(kind='ecc', planets=planets, lims=lims)
    if k == 'k':
        return dict(kind='k', npl=draw(st.integers(1, npl)))
    return dict(kind='eclipse', planet=draw(st.integers(1, npl)), ts=draw(gen.fl(-100, 200)), err=draw(gen.logu(0.01, 10)))


def make_constraint(d):
    R = radvel.prior
    if d['kind'] == 'ecc':
        return R.EccentricityPrior(d['planets']) if d['lims'] is None else R.EccentricityPrior(d['planets'], d['lims'])
    if d['kind'] == 'k':
        return R.PositiveKPrior(d['npl'])
    return R.SecondaryEclipsePrior(d['planet'], d['ts'], d['err'])


def orbit_of(basis, values, n):
    with np.errstate(all='ignore'):
        return rvx.decode(basis, {p: values['%s%d' % (p, n)] for p in basis.split()})


def constraint_logpdf(d, basis, values):
    """(value, tolerance); tolerance None when the case is too close to a boundary to call."""
    if d['kind'] == 'ecc':
        pl = list(range(1, d['planets'] + 1)) if isinstance(d['planets'], int) else d['planets']
        lims = d['lims'] if isinstance(d['lims'], list) else [0.99 if d['lims'] is None else d['lims']] * len(pl)
        bad = close_call = False
        for n, lim in zip(pl, lims):
            e = orbit_of(basis, values, n)['e']
            close_call |= abs(e - lim) < 1e-9 or (e != 0 and abs(e) < 1e-12)
            bad |= e > lim or e < 0
        if close_call:
            return None, None
        return (-math.inf if bad else -sum(math.log(x) for x in lims)), 1e-12
    if d['kind'] == 'k':
        ks = [orbit_of(basis, values, n)['k'] for n in range(1, d['npl'] + 1)]
        if any(k == 0 for k in ks):
            return None, None
        return (-math.inf if any(k < 0 for k in ks) else 0.0), 0.0
    o = orbit_of(basis, values, d['planet'])
    if o['e'] > 0.985 or o['e'] < 0:
        return None, None
    # superior conjunction: true anomaly = 3 pi/2 - omega
    te = float(ref.time_of_true_anomaly(1.5 * np.pi - o['w'], o['per'], o['tp'], o['e']))
    dt = (te - d['ts'] + 0.5 * o['per']) % o['per'] - 0.5 * o['per']
    eps = d['err'] / o['per']
    z = dt / d['err']
    # rounding of times, relative to the stated uncertainty
    dz = (4e-15 * (abs(te) + abs(d['ts']) + abs(o['tp']) + o['per']) * 50 / (1 - o['e']) + 1e-12 * o['per']) / d['err']
    if abs(abs(dt) - 0.5 * o['per']) < 1e-6 * o['per']:
        dz = dz + 2e-6 * o['per'] / d['err']
    return -0.5 * z * z - 0.5 * math.log(2 * math.pi * eps * eps), 1e-9 + abs(z) * dz * 2 + dz * dz
