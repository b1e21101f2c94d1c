"""C13: prior transforms are the inverse CDFs; pairing with free parameters; acceptance rule."""
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, pri, pure, rvx
from vlib.core import Sub, close, fail, require

PROPERTY = "C13"
RULE = ("a prior with generated bounds and 1-20 points of the unit interval, or a model with generated free parameters and a prior set in "
        "generated order; non-trivial: at least two points, or at least two free parameters")
TK = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'UserDefined']


@st.composite
def one(draw):
    return dict(prior=draw(pri.spec('per1', draw(gen.fl(-50, 50)), TK, proper=True)),
                u=sorted(draw(st.lists(gen.fl(1e-6, 1 - 1e-6), min_size=1, max_size=20))))


def check_one(c, ctx):
    d, u = c['prior'], np.array(c['u'])
    p = pri.make(d)
    x = np.asarray(p.transform(u.copy()), float)
    require(x.shape == u.shape, "shape of a transform", got=x.shape)
    close([float(p.transform(v)) for v in u], x, rtol=1e-12, atol=1e-300, msg="scalar and array transforms differ")
    require(np.all(np.diff(x) >= -1e-12 * np.abs(x[1:])), "transform decreases", u=c['u'], x=x)
    loss = 1e-12
    if 'knee' in d:
        loss = 1e-14 * (abs(d['knee']) + abs(d['lo']) + 1) / (d['lo'] - d['knee']) / np.log((d['hi'] - d['knee']) / (d['lo'] - d['knee']))
    elif 'hi' in d and d['kind'] == 'HardBounds':
        loss = 1e-13 * (abs(d['lo']) + abs(d['hi'])) / (d['hi'] - d['lo'])
    elif 'mu' in d:
        loss = 1e-13 * (1 + abs(d['mu']) / d.get('sigma', d.get('s')))
    close(pri.cdf(d, x), u, rtol=1e-8, atol=1e-10 + loss, msg="transform is not the inverse CDF", prior=d)
    if 'lo' in d:
        for e, w in ((0.0, d['lo']), (1.0, d['hi'])):
            close(p.transform(e), w, rtol=1e-10, atol=1e-10 * (abs(d['lo']) + abs(d['hi'])), msg="end of the support")
        require(np.all(x >= d['lo'] - 1e-9 * (1 + abs(d['lo']))) and np.all(x <= d['hi'] + 1e-9 * (1 + abs(d['hi']))), "outside the support")
    ctx.nontrivial(len(u) > 1)
    ctx.label(d['kind'])


NUM = st.fixed_dictionaries(dict(n=st.integers(30, 2000), seed=st.integers(0, 10 ** 6), a=gen.fl(-100, 100), s=gen.logu(0.01, 100),
                                 shape=st.sampled_from(['flat', 'normal', 'skew']), bins=st.sampled_from(['auto', 20, 100]),
                                 u=st.lists(gen.fl(0, 1), min_size=1, max_size=20)))


def check_num(c, ctx):
    """A numerical prior's transform follows the quantiles of its values to within two bins of the histogram."""
    z = np.array(gen.scatter(c['n'], c['seed']))
    if c['shape'] == 'normal':
        from scipy.special import ndtri
        z = ndtri(np.clip(z, 1e-9, 1 - 1e-9))
    elif c['shape'] == 'skew':
        z = -np.log(np.clip(z, 1e-9, 1))
    v = c['a'] + c['s'] * z
    p = radvel.prior.NumericalPrior(['per1'], v.copy(), bins=c['bins'])
    u = np.sort(np.array(c['u']))
    x = np.asarray(p.transform(u), float)
    require(np.all(np.diff(x) >= 0), "transform decreases")
    require(np.all(x >= v.min()) and np.all(x <= v.max()), "outside the range of the values")
    edges = np.histogram_bin_edges(v, bins=c['bins'])
    w = 1.001 * (edges[1] - edges[0])
    # empirical CDF at x -+ 1.5 bins must bracket u
    s = np.sort(v)
    lo = np.searchsorted(s, x - 1.5 * w, side='left') / len(s)
    hi = np.searchsorted(s, x + 1.5 * w, side='right') / len(s)
    ok = (lo <= u + 1e-9) & (u <= hi + 1e-9)
    # across empty bins every value is a valid quantile of the histogram
    require(np.all(ok), "transform does not follow the quantiles of the values", u=u[~ok][:3], x=x[~ok][:3])
    close([float(p.transform(t)) for t in u], x, rtol=1e-12, atol=0, msg="scalar and array transforms differ")
    ctx.nontrivial(len(u) > 1)
    ctx.label(c['shape'])


@st.composite
def sets(draw, defects):
    c = draw(conf.config(max_planets=2, max_inst=2, nmin=1, nmax=2, custom=False))
    vals = conf.initial_values(c)
    free = sorted(n for n in vals if vals[n][1])
    fixed = sorted(n for n in vals if not vals[n][1])
    pr = [draw(pri.spec(n, vals[n][0], TK + ['Numerical'], proper=True)) for n in free]
    pr = draw(st.permutations(pr))
    cons = draw(st.lists(pri.constraint(c['basis'], len(c['orbits'])), max_size=2))
    extra = draw(st.lists(st.sampled_from(sorted(vals)), max_size=2))       # priors marked as constraints, anywhere
    defect = draw(st.sampled_from(defects))
    return dict(conf=c, priors=list(pr), cons=cons, extra=[draw(pri.spec(n, vals[n][0], TK, proper=True)) for n in extra], defect=defect,
                i=draw(st.integers(0, 50)), fixed=fixed, at=draw(st.integers(0, 50)), inplace=draw(st.booleans()),
                u=draw(st.lists(gen.fl(1e-4, 1 - 1e-4), min_size=len(free), max_size=len(free))), two=draw(st.booleans()))


def _post(c):
    post, vals = conf.build(c['conf'])
    pr = [pri.make(d) for d in c['priors']]
    more = [pri.make_constraint(d) for d in c['cons']]
    for d in c['extra']:
        p = pri.make(d)
        p.extra_constraint = True
        more.append(p)
    for j, p in enumerate(more):
        pr.insert((c['at'] + 3 * j) % (len(pr) + 1), p)
    post.priors += pr
    return post, vals


def _check_transform(c, post, ctx):
    names = post.name_vary_params()
    by = {d['param']: d for d in c['priors']}
    require(set(names) == set(by), "harness: free parameters", got=names)
    u = np.array(c['u'])
    if c['two']:
        u = np.column_stack([u, u[::-1]])
    u0 = u.copy()
    want = np.array([pri.make(by[n]).transform(u0[i]) for i, n in enumerate(names)])
    got = post.prior_transform(u, inplace=c['inplace'])
    close(got, want, rtol=1e-12, atol=1e-300, msg="prior_transform: element i is not the transform of free parameter i", names=names)
    if c['inplace']:
        require(got is u, "in place means in place")
    else:
        require(np.array_equal(u, u0), "prior_transform changed its input")
    ctx.nontrivial(len(names) > 1)


def check_set(c, ctx):
    post, vals = _post(c)
    n0 = len(post.priors)
    post.check_proper_priors()
    _check_transform(c, post, ctx)
    require(len(post.priors) == n0, "the list of priors was changed")


def check_bad(c, ctx):
    """One defect in a proper set must be refused."""
    post, vals = _post(c)
    d = c['priors'][c['i'] % len(c['priors'])]
    k = c['defect']
    own = [p for p in post.priors if not p.extra_constraint]
    tgt = own[c['i'] % len(own)]
    if k == 'missing':
        post.priors.remove(tgt)
    elif k == 'constraint-only':
        tgt.extra_constraint = True
    elif k == 'double':
        post.priors.insert(c['at'] % len(post.priors), pri.make(dict(d)))
    elif k == 'double-gauss':
        post.priors.append(radvel.prior.Gaussian(d['param'], 0.0, 1.0))
    elif k == 'fixed':
        n = c['fixed'][c['i'] % len(c['fixed'])] if c['fixed'] else 'not_a_parameter'
        post.priors.insert(c['at'] % len(post.priors), radvel.prior.Gaussian(n, 0.0, 1.0))
    elif k == 'joint':
        n2 = c['priors'][(c['i'] + 1) % len(c['priors'])]['param']
        post.priors.append(radvel.prior.UserDefinedPrior([d['param'], n2], lambda x: 0.0, 'joint', transform_func=lambda u: u))
        if c['two']:
            post.priors = [p for p in post.priors if p.extra_constraint or getattr(p, 'param_list', [getattr(p, 'param', None)])[0] not in
                           (d['param'], n2) or p is post.priors[-1]]
    try:
        post.check_proper_priors()
    except ValueError:
        pass
    else:
        fail("a prior set with a defect was accepted", defect=k, param=d['param'])
    ctx.nontrivial(len(c['priors']) > 1)
    ctx.label(k)


def check_pure(c, ctx):
    u = np.array(c['u'])
    p = pri.make(c['prior'])
    pure.law("transform", lambda x: np.asarray(p.transform(x)), [u], [1 - u * 0.9], atol=1e-12)
    ctx.nontrivial(len(u) > 1)


SUBCHECKS = [Sub("pure", one(), check_pure, quick=60, thorough=600),
             Sub("transform", one(), check_one, quick=600, thorough=8000, weight=1),
             Sub("numerical", NUM, check_num, quick=200, thorough=2000, weight=1),
             Sub("accept", sets(['none']), check_set, quick=250, thorough=3000, weight=2),
             Sub("reject", sets(['missing', 'constraint-only', 'double', 'double-gauss', 'fixed', 'joint']), check_bad, quick=250,
                 thorough=3000, weight=2)]
