"""C29: posterior draws of the model are the models of the samples."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from radvel import utils
from vlib import conf, gen, rvx
from vlib.core import Sub, close, require

PROPERTY = "C29"
RULE = ("1-3 planets in any basis, trends, user-defined forward models, any free parameters, chains of 1-60 samples with any labels (thinned, shuffled, "
        "joined, text), column order and further columns, 1-400 draws; non-trivial: samples and draws are several and the model depends on a free parameter")


@st.composite
def case(draw):
    c = draw(conf.config(max_inst=2, kinds=('rv', 'decorr', 'gp'), linear=False))
    c['m'] = draw(st.one_of(st.integers(1, 5), st.integers(2, 60)))
    c['nsamples'] = draw(st.sampled_from([1, 7, None, 50, 400]))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['labels'] = draw(st.sampled_from(['range', 'range', 'thinned', 'shuffled', 'joined', 'text']))
    c['columns'] = draw(st.integers(0, 10 ** 6))
    c['extra'] = draw(st.booleans())
    c['state'] = draw(st.sampled_from(['bare', 'bare', 'moved']))
    c['times'] = draw(st.lists(gen.fl(-100, 200), min_size=1, max_size=8))
    return c


def samples(c, vals, free):
    rng = np.random.RandomState(c['seed'])
    out = {}
    for n in free:
        v = vals[n]
        u = rng.uniform(-1, 1, c['m'])
        stem = n.rstrip('0123456789') if not n.startswith(('gamma', 'jit', 'c1', 'gp')) else n
        if stem in ('e', 'se'):
            x = np.abs(v + 0.05 * u)
        elif stem in ('secosw', 'sesinw', 'ecosw', 'esinw'):
            x = v + 0.03 * u
        elif stem in ('per', 'k') or n.startswith('gp'):
            x = v * (1 + 0.2 * u)
        else:
            x = v + 0.3 * u
        out[n] = x
    return out


def check(c, ctx):
    post, vals = conf.build(c)
    mod = post.likelihood.model
    v0 = conf.values_of(vals)
    free = [n for n in vals if vals[n][1]]
    if c['state'] == 'moved':
        # the model was used at other values before
        moved = samples(dict(c, m=1, seed=c['seed'] + 1), v0, free)
        post.set_vary_params([float(moved[n][0]) for n in post.name_vary_params()])
        v0 = dict(v0, **{n: float(moved[n][0]) for n in free})
    cols = samples(c, conf.values_of(vals), free)
    names = list(cols)
    if c['extra']:
        cols['lnprobability'] = np.linspace(-5, 0, c['m'])
        cols['mpsini1'] = np.arange(c['m']) * 1.0
        names += ['lnprobability', 'mpsini1']
    rng = np.random.RandomState(c['columns'])
    rng.shuffle(names)
    chain = pd.DataFrame({n: cols[n] for n in names})
    m = c['m']
    chain.index = {'range': np.arange(m), 'thinned': 50 + 3 * np.arange(m), 'shuffled': rng.permutation(m), 'joined': np.arange(m) % max(1, m // 2),
                   'text': ['s%d' % i for i in range(m)]}[c['labels']]
    t = np.array(c['times'])
    before = rvx.snapshot(mod.params), mod.vector.vector.copy(), chain.copy(deep=True), copy.deepcopy(list(mod.params)), list(chain.columns)
    flags = {n: (bool(p.vary), p.mcmcscale, bool(p.linear)) for n, p in mod.params.items()}
    here = np.array(mod(t))
    if c['nsamples'] is None:
        out = utils.draw_models_from_chain(mod, chain, t)
        ns = 50
    else:
        ns = c['nsamples']
        out = utils.draw_models_from_chain(mod, chain, t, nsamples=ns)
    require(np.shape(out) == (ns, len(t)), "one row for each draw, one column for each time", got=np.shape(out))
    # the model at each of the samples, calculated independently
    want = np.zeros((m, len(t)))
    tol = np.zeros((m, len(t)))
    for i in range(m):
        v = dict(v0, **{n: float(cols[n][i]) for n in free})
        want[i] = conf.ref_model(c, v, t)
        orbits = [rvx.decode(c['basis'], {p: v['%s%d' % (p, j + 1)] for p in c['basis'].split()}) for j in range(len(c['orbits']))]
        # times of periastron of orbits given by conjunction carry the tolerance of the solver: allow for it
        tol[i] = rvx.total_tol(t, orbits) + 1e-9 * sum(abs(o['k']) for o in orbits) + 1e-9
    hits = np.zeros(m)
    for r in range(ns):
        ok = np.all(np.abs(out[r] - want) <= tol, axis=1)
        require(bool(ok.any()), "a drawn model is the model of none of the samples", row=r, got=out[r], closest=want[np.argmin(np.abs(out[r] - want).max(axis=1))])
        hits += ok
    same = m > 1 and np.all(np.abs(want - want[0]) <= 2 * tol)
    distinct = m > 1 and not same
    if m <= 10 and ns == 400:
        require(bool(np.all(hits > 0)), "samples of the chain are never drawn", hits=hits.tolist())
    elif distinct and m <= 10 and ns >= 50:
        require(int((hits > 0).sum()) > 1 or m == 1, "all draws are the same sample", hits=hits.tolist())
    # nothing else has changed
    require(rvx.snapshot(mod.params) == before[0] and list(mod.params) == before[3], "parameters of the model were changed")
    require({n: (bool(p.vary), p.mcmcscale, bool(p.linear)) for n, p in mod.params.items()} == flags, "flags of the parameters were changed")
    require(np.array_equal(mod.vector.vector, before[1]), "the vector of the model was changed")
    pd.testing.assert_frame_equal(chain, before[2])
    require(np.array_equal(np.array(mod(t)), here), "the model was changed")
    again = utils.draw_models_from_chain(mod, chain, t, nsamples=ns)
    require(np.shape(again) == np.shape(out), "a second call differs in shape")
    for r in range(ns):
        require(bool(np.all(np.abs(again[r] - want) <= tol, axis=1).any()), "a drawn model is the model of none of the samples, the second time")
    ctx.nontrivial(bool(distinct and ns > 1))
    ctx.label(c['labels'], 'custom' if c['custom'] else 'orbits')


SUBCHECKS = [Sub("draws", case(), check, quick=300, thorough=6000)]
