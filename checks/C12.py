"""C12: priors are the normalised log-densities they are named for."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad

import radvel
from vlib import gen, pri, rvx
from vlib.core import Sub, close, fail, require

PROPERTY = "C12"
RULE = ("a prior on one parameter of a model with 1-4 planets in any basis and other parameters present, at values inside and outside "
        "its support; non-trivial: the value is inside the support or within one width of it, or (constraints) a limit is exceeded "
        "for a listed planet or for an unlisted one")


def _setup(c):
    extra = dict(dvdt=0.01, curv=(0.002, False), gamma_j=3.0, jit_j=1.5, my_par=2.5, gp_amp=4.0)
    params = rvx.make_params(c['basis'], c['orbits'], extra)
    mod = radvel.RVModel(params)
    return params, mod.vector


def _snap(params, vector, prior):
    return (rvx.snapshot(params), vector.vector.copy().tolist(), dict(vector.indices),
            {k: (np.array(v).tolist() if isinstance(v, np.ndarray) else repr(v)) for k, v in vars(prior).items()})


@st.composite
def density_case(draw):
    basis = draw(st.sampled_from(rvx.BASES))
    orbits = draw(st.lists(gen.orbit(), min_size=1, max_size=3))
    names = ['%s%d' % (p, i + 1) for i in range(len(orbits)) for p in basis.split()] + ['dvdt', 'gamma_j', 'jit_j', 'my_par', 'gp_amp']
    name = draw(st.sampled_from(names))
    d = draw(pri.spec(name, draw(gen.fl(-20, 20))))
    if d['kind'] == 'Baseline':
        d['param'] = name = 'per1' if basis.startswith('per ') else 'logper1'
    # values placed relative to the prior's own scale
    lo, hi = _span(d)
    fs = draw(st.lists(st.one_of(gen.fl(-0.5, 1.5), gen.fl(0, 1)), min_size=1, max_size=5))
    return dict(basis=basis, orbits=orbits, prior=d, xs=[lo + f * (hi - lo) for f in fs])


def _span(d):
    if 'lo' in d:
        return d['lo'], d['hi']
    if d['kind'] == 'Gaussian':
        return d['mu'] - 4 * d['sigma'], d['mu'] + 4 * d['sigma']
    if d['kind'] == 'UserDefined':
        return d['mu'] - 8 * d['s'], d['mu'] + 8 * d['s']
    if d['kind'] == 'Numerical':
        return min(d['values']) - 1, max(d['values']) + 1
    hi = 3 * (d['baseline'] + d['duration'])
    return (0.01, hi) if not d['param'].startswith('logper') else (-3, np.log(hi))


def check_density(c, ctx):
    params, vector = _setup(c)
    d = c['prior']
    prior = pri.make(d)
    row = vector.indices[d['param']]
    for x in c['xs']:
        if pri.near_edge(d, x):
            continue
        vector.vector[row][0] = x
        before = _snap(params, vector, prior)
        want = pri.logpdf(d, x)
        tol = 1e-9
        if d['kind'] == 'Numerical':
            v, h = pri.kde(d['values'])
            if h < 1e-9 * (1 + abs(v).max()):
                continue
            tol = 1e-8 * (1 + abs(want)) + 1e-12 * (1 + abs(v).max()) / h * (1 + abs(x - v).max() / h)
            if want < -600:
                continue   # the density underflows
        elif d['kind'] == 'Baseline':
            per = np.exp(x) if d['param'].startswith('logper') else x
            tol = 1e-9 * (1 + per / d['baseline'])
        elif d['kind'] == 'ModifiedJeffreys':
            tol = 1e-9 + 1e-14 * (abs(x) + abs(d['knee'])) / max(abs(x - d['knee']), 1e-300) + \
                1e-13 * (abs(d['lo']) + abs(d['hi'])) / (d['hi'] - d['lo']) + 1e-13 * (abs(d['lo']) + 1) / (d['lo'] - d['knee'])
        elif d['kind'] == 'Gaussian':
            tol = 1e-9 * (1 + abs(want))
        got = prior(params, vector)
        close(got, want, rtol=1e-11, atol=tol, msg="log-density of %s" % d['kind'], x=x)
        require(_snap(params, vector, prior) == before, "evaluating a prior changed something")
        require(np.shape(got) == (), "a prior returns one number", got=got)
        if np.isfinite(want):
            ctx.nontrivial()
        ctx.label(d['kind'], "inside" if np.isfinite(want) else "outside")


def check_norm(c, ctx):
    """exp(prior) integrates to one over its support and is zero outside it."""
    d = c['prior']
    params, vector = _setup(c)
    prior = pri.make(d)
    row = vector.indices[d['param']]

    def f(x):
        vector.vector[row][0] = x
        return float(np.exp(prior(params, vector)))
    k = d['kind']
    if k in ('Jeffreys', 'ModifiedJeffreys'):
        knee = d.get('knee', 0.0)
        a, b = np.log(d['lo'] - knee), np.log(d['hi'] - knee)
        eps = 1e-9 * (b - a)
        tot = quad(lambda s: f(knee + np.exp(s)) * np.exp(s), a + eps, b - eps, epsabs=1e-8, epsrel=1e-8)[0]
    elif k == 'HardBounds':
        w = d['hi'] - d['lo']
        tot = quad(f, d['lo'] + 1e-9 * w, d['hi'] - 1e-9 * w)[0]
    elif k == 'Gaussian':
        tot = quad(lambda z: f(d['mu'] + d['sigma'] * z) * d['sigma'], -10, 10, points=[0], epsabs=1e-9)[0]
    elif k == 'UserDefined':
        tot = quad(lambda z: f(d['mu'] + d['s'] * z) * d['s'], -40, 40, points=[0], limit=200)[0]
    else:
        v, h = pri.kde(d['values'])
        if h < 1e-6:
            return
        g = np.linspace(v.min() - 9 * h, v.max() + 9 * h, max(200, int(12 * (np.ptp(v) / h + 18))))
        tot = sum(f(x) for x in g) * (g[1] - g[0])
    close(tot, 1.0, rtol=2e-5, atol=0, msg="the density of %s does not integrate to one" % k)
    if 'lo' in d:
        w = d['hi'] - d['lo']
        for x in (d['lo'] - 1e-3 * w, d['hi'] + 1e-3 * w, d['lo'] - 10 * w, d['hi'] + 10 * w):
            require(f(x) == 0.0, "density outside the support", x=x)
    ctx.nontrivial()
    ctx.label(k)


@st.composite
def cons_case(draw):
    basis = draw(st.sampled_from(rvx.BASES))
    npl = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(10, 11)))
    orbits = [dict(per=draw(gen.fl(1, 100)), tp=draw(gen.fl(-50, 50)),
                   e=draw(st.one_of(gen.eccs(0.9), gen.fl(0, 0.3), gen.fl(0.9, 1.3))), w=draw(gen.omegas()), k=draw(gen.logu(0.1, 100)))
              for _ in range(npl)]
    cons = draw(pri.constraint(basis, npl))
    if cons['kind'] == 'ecc':
        # eccentricities just above and below any of the limits, not only the planet's own
        lims = cons['lims'] if isinstance(cons['lims'], list) else [cons['lims'] or 0.99]
        for o in orbits:
            if draw(st.booleans()):
                o['e'] = min(1.3, draw(st.sampled_from(lims)) * draw(st.sampled_from([0.9, 0.9, 1.1])))
        if draw(st.booleans()):
            # every planet allowed, or exactly one (of those listed or not) outside its limit
            listed = cons['planets'] if isinstance(cons['planets'], list) else list(range(1, cons['planets'] + 1))
            own = dict(zip(listed, lims if isinstance(cons['lims'], list) else lims * len(listed)))
            for n, o in enumerate(orbits):
                o['e'] = 0.95 * own.get(n + 1, max(lims))
            if draw(st.booleans()):
                n = draw(st.one_of(st.just(max(own)), st.integers(1, npl)))
                orbits[n - 1]['e'] = min(1.3, 1.1 * own.get(n, max(lims)))
    elif cons['kind'] == 'k' and draw(st.booleans()):
        cons['npl'] = npl

    def negative(prob):
        none = [False] * npl
        return draw(st.one_of(st.just(none), st.lists(st.sampled_from(prob), min_size=npl, max_size=npl),
                              st.sampled_from([npl, npl, max(1, npl - 1), 1]).map(lambda n: none[:n - 1] + [True] + none[n:])))
    return dict(basis=basis, orbits=orbits, cons=cons,
                negk=negative([False, True]) if 'logk' not in basis else [False] * npl,
                nege=negative([False, False, True]) if ' e ' in basis else [False] * npl)


def check_cons(c, ctx):
    safe = [dict(o, e=min(o['e'], 0.9)) for o in c['orbits']]
    params, vector = _setup(dict(c, orbits=safe))
    basis = c['basis']
    vals = {}
    for i, o in enumerate(c['orbits']):
        v = rvx.encode(basis, dict(o, e=min(o['e'], 0.9)))
        for p in v:
            if p in ('e', 'se', 'secosw', 'sesinw', 'ecosw', 'esinw'):
                f = o['e'] / min(o['e'], 0.9) if o['e'] > 0.9 else 1.0
                v[p] = v[p] * (f if p in ('e', 'ecosw', 'esinw') else np.sqrt(f))
            if p == 'k' and c['negk'][i]:
                v[p] = -v[p]
            if p == 'e' and c['nege'][i]:
                v[p] = -v[p]
            vals['%s%d' % (p, i + 1)] = float(v[p])
            vector.vector[vector.indices['%s%d' % (p, i + 1)]][0] = v[p]
    d = c['cons']
    prior = pri.make_constraint(d)
    require(prior.extra_constraint, "constraints are marked as such")
    before = _snap(params, vector, prior)
    want, tol = pri.constraint_logpdf(d, basis, vals)
    if want is None:
        ctx.label("boundary")
        return
    got = prior(params, vector)
    close(got, want, rtol=1e-11, atol=max(tol, 1e-12), msg="constraint %s" % d['kind'], basis=basis)
    if d['kind'] in ('ecc', 'k'):
        # for samplers which need numbers
        num = prior(params, vector, finite=True)
        if np.isfinite(want):
            close(num, got, rtol=0, atol=0, msg="constraint %s as a finite number" % d['kind'])
        else:
            require(np.isfinite(num) and num <= -1e90, "a forbidden point as a finite number", got=num)
    after = _snap(params, vector, prior)
    require(after == before, "evaluating a constraint changed something")
    try:
        prior.transform(0.5)
    except NotImplementedError:
        pass
    else:
        fail("a constraint has a transform")
    ctx.nontrivial(d['kind'] == 'eclipse' or not np.isfinite(want) or any(c['negk']) or any(o['e'] > 0.5 for o in c['orbits']))
    ctx.label(d['kind'], "allowed" if np.isfinite(want) else "forbidden")


@st.composite
def joint_case(draw):
    n = draw(st.integers(8, 50))
    v = [[4 * (x - .5) for x in gen.scatter(n, draw(st.integers(0, 1000)), j)] for j in range(2)]
    mix_ = draw(gen.fl(-0.8, 0.8))
    v[1] = [b + mix_ * a for a, b in zip(*v)]
    return dict(basis=draw(st.sampled_from(rvx.BASES)), orbits=draw(st.lists(gen.orbit(), min_size=1, max_size=2)), values=v,
                names=draw(st.permutations(['dvdt', 'my_par', 'gamma_j']))[:2], x=[draw(gen.fl(-3, 3)), draw(gen.fl(-3, 3))])


def check_joint(c, ctx):
    """Priors on two parameters: the kernel density estimate and a user's function get the parameters in the order named."""
    params, vector = _setup(c)
    v = np.array(c['values'])
    for n, x in zip(c['names'], c['x']):
        vector.vector[vector.indices[n]][0] = x
    C = np.cov(v) * v.shape[1] ** (-1 / 3.)      # Scott's factor for two dimensions, squared
    dz = np.array(c['x'])[:, None] - v
    z = -0.5 * np.sum(dz * np.linalg.solve(C, dz), axis=0)
    want = float(np.log(np.mean(np.exp(z))) - 0.5 * np.log(np.linalg.det(2 * np.pi * C)))
    prior = radvel.prior.NumericalPrior(list(c['names']), v.copy())
    before = _snap(params, vector, prior)
    if want > -600:
        close(prior(params, vector), want, rtol=1e-8, atol=1e-8, msg="joint numerical prior")
    seen = []
    p2 = radvel.prior.UserDefinedPrior(list(c['names']), lambda x: seen.append([float(i) for i in x]) or x[0] - 2 * x[1], 'tex')
    close(p2(params, vector), c['x'][0] - 2 * c['x'][1], rtol=1e-12, atol=1e-12, msg="user-defined prior of two parameters")
    require(seen == [[float(x) for x in c['x']]], "values passed to a user-defined prior", got=seen)
    require(_snap(params, vector, prior) == before, "evaluating a prior changed something")
    ctx.nontrivial()


def check_open(c, ctx):
    """Bounds of which one or both are infinite: no density to normalise, but still bounds."""
    params, vector = _setup(c)
    row = vector.indices[c['param']]
    lo, hi = (-np.inf if c['lo'] is None else c['lo']), (np.inf if c['hi'] is None else c['hi'])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        prior = radvel.prior.HardBounds(c['param'], lo, hi)
    proper = np.isfinite(lo) and np.isfinite(hi)
    require(any(issubclass(x.category, UserWarning) for x in w) != proper, "warning about a bound that is not finite", lo=lo, hi=hi)
    ins = outs = 0
    for x in c['xs'] + [np.nan]:
        vector.vector[row][0] = x
        before = _snap(params, vector, prior) if x == x else None
        got = prior(params, vector)
        if lo < x < hi:
            ins += 1
            close(got, -math.log(hi - lo) if proper else 0.0, rtol=1e-12, atol=1e-12, msg="density within bounds", x=x)
        elif x != lo and x != hi:
            outs += 1
            require(got == -np.inf, "density out of bounds", x=x, lo=lo, hi=hi, got=got)
        require(x != x or _snap(params, vector, prior) == before, "evaluating a prior changed something")
    if not proper:
        try:
            prior.transform(0.3)
        except ValueError:
            pass
        else:
            fail("bounds that are not finite have a transform")
    ctx.nontrivial(ins > 0 and outs > 1)
    ctx.label('proper' if proper else 'open')


@st.composite
def open_case(draw):
    lo = draw(gen.fl(-10, 10))
    return dict(basis=draw(st.sampled_from(rvx.BASES)), orbits=draw(st.lists(gen.orbit(), min_size=1, max_size=1)), param=draw(st.sampled_from(['dvdt', 'gamma_j'])),
                lo=draw(st.sampled_from([lo, None])), hi=draw(st.sampled_from([lo + 0.5, lo + 12, None])),
                xs=draw(st.lists(gen.fl(-30, 30), min_size=2, max_size=6)))


SUBCHECKS = [Sub("density", density_case(), check_density, quick=800, thorough=10000, weight=3),
             Sub("norm", density_case().filter(lambda c: c['prior']['kind'] != 'Baseline'), check_norm, quick=120, thorough=1500, weight=2),
             Sub("constraints", cons_case(), check_cons, quick=1200, thorough=15000, weight=2),
             Sub("joint", joint_case(), check_joint, quick=150, thorough=1500, weight=1),
             Sub("open", open_case(), check_open, quick=150, thorough=1500, weight=1)]
