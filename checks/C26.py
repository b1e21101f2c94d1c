"""C26: a setup configuration maps every datum and parameter to its instrument."""
import math
import os
import random
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, rvx, setup_gen
from vlib.core import Sub, close, require

PROPERTY = "C26"
RULE = ("1-3 planets in any basis, 1-4 instruments with 2-7 observations each in interleaved rows (any row labels, further columns and instruments nobody "
        "asked for), decorrelation variables, jitters or log-jitters, plain or Gaussian-process instruments with any kernels, shared and own "
        "hyperparameters, trends, priors; non-trivial: several instruments whose rows are interleaved, or decorrelation, or a Gaussian process")


@st.composite
def case(draw):
    # a setup file names hyperparameters for all of its instruments or for none
    c = draw(conf.config(custom=False, kinds=draw(st.sampled_from([('rv',), ('rv',), ('gp',)])), max_inst=4, kernels=('QuasiPer', 'SqExp', 'Per', 'Celerite'), errmin=0.5))
    seen = conf.shared_conflict(c)              # one value for each shared hyperparameter
    for ins in c['insts']:
        if ins['kind'] == 'gp':
            ins['hp'] = {h: seen[conf.hname(ins, h)] for h in ins['hp']}
    c['letters'] = draw(st.sampled_from([None, 'bcd', 'dbe']))
    c['option'] = draw(st.booleans())          # --decorr
    dvars = draw(st.lists(st.sampled_from(conf.DVARS), min_size=1, max_size=3, unique=True)) if c['option'] or draw(st.booleans()) else []
    c['dvars'] = dvars
    c['given'] = draw(st.booleans())           # decorrelation coefficients listed in the setup file
    cols = {}
    for ins in c['insts']:
        n = len(ins['t'])
        cols[ins['name']] = {v: draw(st.lists(gen.fl(-3, 10), min_size=n, max_size=n)) for v in dvars}
        if c['option'] and ins['kind'] == 'rv':
            ins['decorr'] = [dict(var=v, c1=draw(gen.fl(-5, 5)) if c['given'] else 0.0, vec=cols[ins['name']][v]) for v in dvars]
        ins['logjit'] = ins['jit'] > 0 and draw(st.sampled_from([False, False, True]))
    c['cols'] = cols
    c['order'] = draw(st.integers(0, 10 ** 6))
    c['rows'] = draw(st.sampled_from(['interleaved', 'interleaved', 'blocks', 'time']))
    c['labels'] = draw(st.sampled_from([None, None, 'reversed', 'same', 'text']))
    c['stray'] = draw(st.integers(0, 3))       # rows of an instrument that is not asked for
    names = sorted(conf.initial_values(c))
    pr = [dict(kind=draw(st.sampled_from(['Gaussian', 'Jeffreys'])), param=draw(st.sampled_from(names)), mu=draw(gen.fl(-5, 5)), sigma=draw(gen.fl(1, 30)),
               lo=1e-3, hi=1e7) for _ in range(draw(st.integers(0, 3)))]
    c['priors'] = pr
    c['kernels_given'] = draw(st.sampled_from(['all', 'needed', 'needed']))
    return c


def setup(c, order):
    """Description of a setup file (see setup_gen) of this configuration, with the rows in an order of their own."""
    rows = []
    for ins in c['insts']:
        for j in range(len(ins['t'])):
            r = dict(time=ins['t'][j], mnvel=ins['v'][j], errvel=ins['err'][j], tel=ins['name'])
            r.update({v: c['cols'][ins['name']][v][j] for v in c['dvars']})
            rows.append(r)
    for j in range(c['stray']):
        rows.append(dict(time=3.3 * j, mnvel=1e3, errvel=0.1, tel='zz', **{v: 50.0 for v in c['dvars']}))
    rng = random.Random(order)
    if c['rows'] == 'interleaved':
        rng.shuffle(rows)
    elif c['rows'] == 'time':
        rows.sort(key=lambda r: r['time'])
    insts = [i['name'] for i in c['insts']]
    vals = conf.initial_values(c)
    pars = []
    for n, (v, vary, scale, linear) in vals.items():
        if n.startswith('c1_') and not c['given']:
            continue
        for ins in c['insts']:
            if n == 'jit_' + ins['name'] and ins['logjit']:
                n, v = 'logjit_' + ins['name'], math.log(v)
        pars.append([n, v, vary, scale, linear])
    hn = {i['name']: [conf.hname(i, h) for h in conf.KERNELS[i['kernel']]] for i in c['insts'] if i['kind'] == 'gp'}
    kn = {i['name']: i['kernel'] for i in c['insts'] if i['kind'] == 'gp' and (c['kernels_given'] == 'all' or any(j['kernel'] != 'QuasiPer' for j in c['insts']))}
    cols = ['time', 'mnvel', 'errvel', 'tel'] + c['dvars']
    index = None
    n = len(rows)
    if c['labels'] == 'reversed':
        index = list(range(n))[::-1]
    elif c['labels'] == 'same':
        index = [i % 2 for i in range(n)]
    elif c['labels'] == 'text':
        index = ['r%d' % (i * 7 % n) for i in range(n)]
    return dict(star='s', orbits=c['orbits'], instnames=insts, basis=c['basis'], bjd0=0.0, letters=c['letters'][:len(c['orbits'])] if c['letters'] else None,
                pars=pars, data={k: [r[k] for r in rows] for k in cols}, index=index, priors=c['priors'], time_base=c['time_base'], stellar=None,
                planet=None, decorr_vars=c['dvars'] or None, hnames=hn or None, kernel_name=kn or None)


def ref_prior(c, vals):
    out = 0.0
    for d in c['priors']:
        x = vals[d['param']]
        if d['kind'] == 'Gaussian':
            out += -0.5 * ((x - d['mu']) / d['sigma']) ** 2 - 0.5 * math.log(2 * math.pi * d['sigma'] ** 2)
        elif not d['lo'] < x < d['hi']:
            return -math.inf
        else:
            out += -math.log(x) - math.log(math.log(d['hi'] / d['lo']))
    return out


def load(C, option, d, name):
    path = setup_gen.write(C, os.path.join(d, name + '.py'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return radvel.utils.initialize_posterior(path, decorr=option)


def check(c, ctx):
    vals = conf.initial_values(c)
    if c['option'] and not c['given']:
        for n in vals:
            if n.startswith('c1_'):
                vals[n][1:] = [True, None, False]
    v0 = conf.values_of(vals)
    with tempfile.TemporaryDirectory() as d:
        C = setup(c, c['order'])
        P, post = load(C, c['option'], d, 'first')
        P2, post2 = load(C, c['option'], d, 'first')
        c2 = dict(c, insts=c['insts'][::-1])
        C2 = setup(c2, c['order'] + 1)
        P3, post3 = load(C2, c['option'], d, 'other')
    like = post.likelihood
    # every parameter as configured
    given = {n: v for n, v in vals.items()}
    got = set(post.params)
    missing = [n for n in given if n not in got]
    require(not missing, "parameters of the configuration are missing", missing=missing)
    extra = [n for n in got if n not in given and n not in ('dvdt', 'curv')]
    require(not extra, "the posterior has parameters nobody configured", extra=extra)
    for n, (v, vary, scale, linear) in given.items():
        p = post.params[n]
        close(float(p.value), v, rtol=1e-14, msg="value of a parameter", name=n)
        require(bool(p.vary) == bool(vary), "vary flag of a parameter", name=n, got=p.vary)
        require(bool(p.linear) == bool(linear), "linear flag of a parameter", name=n, got=p.linear)
        if n in {'jit_' + i['name'] for i in c['insts'] if i['logjit']}:
            scale = p.mcmcscale         # the step of a logarithm is not a step of the jitter
        require((p.mcmcscale or None) == (scale or None), "step size of a parameter", name=n, got=p.mcmcscale, expected=scale)
        row = like.vector.vector[like.vector.indices[n]]
        close([row[0], row[1], row[3]], [float(p.value), float(bool(vary)), float(bool(linear))], rtol=1e-14, msg="vector and parameters differ", name=n)
    for n in ('dvdt', 'curv'):
        if n not in given and n in got:
            require(post.params[n].value == 0 and not post.params[n].vary, "a trend nobody configured", name=n)
    if c['letters']:
        require(post.params.planet_letters == {i + 1: l for i, l in enumerate(c['letters'][:len(c['orbits'])])}, "planet letters")
    require(post.model.time_base == c['time_base'], "reference time")
    require(len(post.model.params) >= 0 and post.params.num_planets == len(c['orbits']), "number of planets")
    free = set(post.name_vary_params())
    require(free == {n for n in given if given[n][1]}, "free parameters", got=sorted(free))
    # every instrument its own data
    require([l.suffix for l in like.like_list] == [i['name'] for i in c['insts']], "one likelihood for each instrument asked for, in that order")
    for l, ins in zip(like.like_list, c['insts']):
        rows = [i for i, t in enumerate(C['data']['tel']) if t == ins['name']]
        x, y, e = (np.array([C['data'][k][i] for i in rows]) for k in ('time', 'mnvel', 'errvel'))
        if ins.get('kernel') == 'Celerite' and ins['kind'] == 'gp':
            o = np.argsort(x)
            x, y, e = x[o], y[o], e[o]
        require(np.array_equal(l.x, x) and np.array_equal(l.y, y) and np.array_equal(l.yerr, e), "an instrument does not hold its own observations",
                name=ins['name'])
        require(list(l.telvec) == [ins['name']] * len(x), "instrument labels")
        kind = {'rv': radvel.likelihood.RVLikelihood, 'gp': radvel.likelihood.GPLikelihood}[ins['kind']]
        if ins['kind'] == 'gp' and ins['kernel'] == 'Celerite':
            kind = radvel.likelihood.CeleriteLikelihood
        require(type(l) is kind, "kind of likelihood", got=type(l).__name__, name=ins['name'])
        for v in ins['decorr']:
            require(np.array_equal(l.decorr_vectors[v['var']], [C['data'][v['var']][i] for i in rows]), "decorrelation variable of an instrument", var=v['var'])
        if ins['kind'] == 'gp':
            require(l.kernel.name == ins['kernel'], "kernel of an instrument", got=l.kernel.name, name=ins['name'])
            require(list(l.hnames) == [conf.hname(ins, h) for h in conf.KERNELS[ins['kernel']]], "hyperparameters of an instrument", got=l.hnames)
    require(len(like.x) == sum(len(i['t']) for i in c['insts']), "number of observations")
    # the same function of the parameters as an independent calculation
    want = conf.ref_loglike(c, v0) + ref_prior(c, v0)
    tol = conf.ll_tol(c, v0) * 2
    lp = float(post.logprob())
    if math.isinf(want):
        require(lp == want, "log-posterior outside a prior", got=lp)
    else:
        close(lp, want, rtol=1e-10, atol=tol, msg="log-posterior of the configuration")
    require(len(post.priors) == len(c['priors']), "priors")
    close(float(post2.logprob()), lp, rtol=0, atol=0, msg="the configuration gives another posterior the second time")
    close(float(post3.logprob()), lp, rtol=1e-10, atol=tol, msg="order of rows and instruments matters")
    ctx.nontrivial((len(c['insts']) > 1 and c['rows'] != 'blocks') or bool(c['option']) or any(i['kind'] == 'gp' for i in c['insts']))
    ctx.label('decorr' if c['option'] else 'no decorr', 'gp' if any(i['kind'] == 'gp' for i in c['insts']) else 'rv',
              'logjit' if any(i['logjit'] for i in c['insts']) else 'jit', 'finite' if math.isfinite(lp) else 'infinite')


SUBCHECKS = [Sub("configurations", case(), check, quick=400, thorough=8000)]
