"""C08: a multi-instrument likelihood is the sum over instruments."""
import copy

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, hist
from vlib.core import Sub, close, fail, require

PROPERTY = "C08"
RULE = ("2-4 instruments of any kind (plain, decorrelated, analytic offset, GP, celerite) in any order; non-trivial: at least two "
        "instruments")

KERN = ('QuasiPer', 'SqExp', 'Per', 'Celerite')
CASE = st.tuples(conf.config(max_inst=4, min_inst=2, kernels=KERN), st.integers(0, 10 ** 6)).map(
    lambda t: dict(t[0], pick=t[1], composite=True))


def _labels(c, ctx):
    ctx.nontrivial(len(c['insts']) > 1)
    ctx.label("n=%d" % len(c['insts']), *["kind=" + (i['kind'] if i['kind'] != 'gp' else i['kernel']) for i in c['insts']])


def check_sum(c, ctx):
    post, vals = conf.build(c)
    like = post.likelihood
    v = conf.values_of(vals)
    tol = conf.ll_tol(c, v)
    refs = [conf.ref_instrument(c, i, v) for i in c['insts']]
    subs = like.like_list
    close(like.logprob(), sum(r['ll'] for r in refs), rtol=0, atol=tol, msg="log-likelihood of the combined data")
    close(like.logprob(), sum(s.logprob() for s in subs), rtol=1e-12, atol=1e-12, msg="not the sum of the instruments' own values")
    close(like.x, np.concatenate([r['t'] for r in refs]), rtol=0, atol=0, msg="times")
    order = [np.argsort(i['t']) if i['kind'] == 'gp' and i['kernel'] == 'Celerite' else np.arange(len(i['t'])) for i in c['insts']]
    close(like.y, np.concatenate([r['v'] for r in refs]), rtol=0, atol=0, msg="velocities")
    close(like.yerr, np.concatenate([np.array(i['err'])[o] for i, o in zip(c['insts'], order)]), rtol=0, atol=0, msg="errors")
    require(list(like.telvec) == sum([[i['name']] * len(i['t']) for i in c['insts']], []), "instrument labels", got=list(like.telvec))
    close(like.errorbars(), np.concatenate([np.sqrt(r['var']) for r in refs]), rtol=1e-12, atol=0, msg="error bars with jitter")
    got = like.residuals()
    lo = 0
    require(len(got) == len(like.x), "number of residuals")
    for i, r, s in zip(c['insts'], refs, subs):
        seg = got[lo:lo + len(r['t'])]
        close(seg, s.residuals(), rtol=1e-12, atol=1e-12, msg="residuals are not the instrument's own")
        if i['kind'] != 'gp':
            close(seg, r['resid'], rtol=1e-9, atol=1e-6 * 40, msg="residuals of " + i['name'])
        lo += len(r['t'])
    require(list(like.suffixes if np.ndim(like.suffixes) else [like.suffixes]) == [i['name'] for i in c['insts']], "suffixes")
    want = {p + '_' + i['name'] for i in c['insts'] for p in ('gamma', 'jit')}
    require(set(like.extra_params) == want and len(like.extra_params) == len(want), "list of instrument parameters",
            got=like.extra_params)
    hn = {conf.hname(i, h) for i in c['insts'] if i['kind'] == 'gp' for h in conf.KERNELS[i['kernel']]}
    require(set(like.hnames) == hn, "GP hyperparameters of the combined likelihood", got=like.hnames, want=sorted(hn))
    require(set(vals) <= set(like.params.keys()), "a parameter is missing", got=list(like.params.keys()))
    _labels(c, ctx)


def check_order(c, ctx):
    """Any order of the instruments gives the same value; the concatenations follow the order."""
    post, vals = conf.build(c)
    v = conf.values_of(vals)
    base = post.likelihood.logprob()
    k = c['pick'] % len(c['insts'])
    c2 = dict(c, insts=c['insts'][k:] + c['insts'][:k])
    if c['pick'] % 2:
        c2['insts'] = c2['insts'][::-1]
    shared = {}
    for ins in c['insts']:           # a shared hyperparameter has one value: that of the first instrument naming it
        if ins['kind'] == 'gp':
            for h in conf.KERNELS[ins['kernel']]:
                shared.setdefault(conf.hname(ins, h), ins['hp'][h])
    c2 = copy.deepcopy(c2)
    for ins in c2['insts']:
        if ins['kind'] == 'gp':
            for h in conf.KERNELS[ins['kernel']]:
                ins['hp'][h] = shared[conf.hname(ins, h)]
    p2, vals2 = conf.build(c2)
    require(conf.values_of(vals2) == v, "harness: values differ")
    close(p2.likelihood.logprob(), base, rtol=0, atol=2 * conf.ll_tol(c, v), msg="value depends on the order of the instruments")
    require(list(p2.likelihood.telvec) == sum([[i['name']] * len(i['t']) for i in c2['insts']], []), "instrument labels")
    close(p2.likelihood.x[np.array(p2.likelihood.telvec) == c['insts'][0]['name']],
          post.likelihood.x[np.array(post.likelihood.telvec) == c['insts'][0]['name']], rtol=0, atol=0, msg="times of one instrument")
    _labels(c, ctx)


def check_isolation(c, ctx):
    """Changing one instrument's own parameters changes that instrument's contribution as its reference says, and no other's."""
    post, vals = conf.build(c)
    like = post.likelihood
    v = conf.values_of(vals)
    before = [s.logprob() for s in like.like_list]
    eb = like.errorbars()
    k = c['pick'] % len(c['insts'])
    ins = c['insts'][k]
    own = ['jit_' + ins['name']] + ([] if ins['linear'] else ['gamma_' + ins['name']])
    own += ['c1_%s_%s' % (d['var'], ins['name']) for d in ins['decorr']]
    if ins['kind'] == 'gp':
        own += [conf.hname(ins, h) for h in conf.KERNELS[ins['kernel']] if conf.hname(ins, h).endswith('_' + ins['name'])]
    names = [own[(c['pick'] // 7) % len(own)]]
    if c['pick'] % 3 == 0:
        names = own
    v2 = dict(v)
    for n in names:
        v2[n] = v[n] * 1.3 + 0.4 if not n.startswith('gamma') else v[n] + 2.5
        like.vector.vector[like.vector.indices[n]][0] = v2[n]
    after = [s.logprob() for s in like.like_list]
    lo = 0
    eb2 = like.errorbars()
    for j, i in enumerate(c['insts']):
        n = len(i['t'])
        if j != k:
            require(before[j] == after[j], "another instrument's likelihood changed", changed=names, instrument=i['name'])
            require(np.array_equal(eb[lo:lo + n], eb2[lo:lo + n]), "another instrument's error bars changed")
        lo += n
    tol = conf.ll_tol(c, v2)
    close(after[k], conf.ref_instrument(c, ins, v2)['ll'], rtol=0, atol=tol, msg="the instrument does not follow its own parameters",
          names=names)
    close(like.logprob(), conf.ref_loglike(c, v2), rtol=0, atol=tol, msg="total after the change")
    _labels(c, ctx)


MANY = st.tuples(conf.config(max_inst=8, min_inst=5, nmin=1, nmax=4, kernels=KERN), st.integers(0, 10 ** 6)).map(
    lambda t: dict(t[0], pick=t[1], composite=True))
LONG = st.tuples(conf.config(max_inst=4, min_inst=2, kinds=("rv", "decorr")), conf.LENGTHS).map(
    lambda t: dict(conf.lengthen(t[0], t[1]), pick=1, composite=True))

SUBCHECKS = [Sub("many", MANY, check_sum, quick=60, thorough=800, weight=2),
             Sub("long", LONG, check_sum, quick=30, thorough=400, weight=2),
             Sub("sum", CASE, check_sum, quick=250, thorough=3000, weight=3),
             Sub("order", CASE, check_order, quick=150, thorough=2000, weight=2),
             Sub("isolation", CASE, check_isolation, quick=200, thorough=2500, weight=2),
             Sub("history", hist.case(('rv', 'decorr', 'gp'), kernels=KERN, max_inst=3, min_inst=2), hist.run, quick=100, thorough=1500, weight=3)]
