"""Histories of evaluations and changes of a likelihood: after every step it is a function of the present values and data."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import conf, gen, rvx
from vlib.core import close, require
from vlib.gpcheck import _new

EVAL = ['logprob', 'part', 'residuals', 'errorbars', 'array', 'neg', 'model']


@st.composite
def case(draw, kinds, kernels=('SqExp',), max_inst=2, min_inst=1, linear=True, nmin=1, nmax=8):
    c = draw(conf.config(max_planets=2, max_inst=max_inst, min_inst=min_inst, kinds=kinds, kernels=kernels, linear=linear, nmin=nmin, nmax=nmax))
    ev = st.fixed_dictionaries(dict(op=st.sampled_from(EVAL), k=st.integers(0, 9), f=st.lists(gen.fl(0.6, 1.6), min_size=6, max_size=6),
                                    new=st.booleans(), t=st.lists(gen.fl(-50, 150), min_size=1, max_size=6)))
    ch = st.one_of(
        st.fixed_dictionaries(dict(op=st.just('set'), i=st.integers(0, 99), f=gen.fl(0.4, 2.5), how=st.sampled_from(['row', 'dict']))),
        st.fixed_dictionaries(dict(op=st.just('set'), i=st.integers(0, 99), f=gen.fl(0.4, 2.5), how=st.sampled_from(['row', 'dict']))),
        st.fixed_dictionaries(dict(op=st.just('flag'), i=st.integers(0, 99))),
        st.fixed_dictionaries(dict(op=st.just('y'), k=st.integers(0, 9), f=gen.fl(-20, 20))),
        st.fixed_dictionaries(dict(op=st.just('swap'), k=st.integers(0, 9))),
        st.fixed_dictionaries(dict(op=st.just('err'), k=st.integers(0, 9), f=gen.fl(0.5, 2))),
        st.fixed_dictionaries(dict(op=st.just('base'), f=gen.fl(-20, 20))))
    c['ops'] = draw(st.lists(st.tuples(ch, ev, st.integers(0, 1)), min_size=2, max_size=8))
    return c


class State(object):
    def __init__(self, c):
        self.c = copy.deepcopy(c)
        self.post, vals = conf.build(c)
        self.v = conf.values_of(vals)
        self.vary = {n: bool(x[1]) for n, x in vals.items()}
        self.lin = {'gamma_' + i['name'] for i in c['insts'] if i['linear']}
        self.top = self.post.likelihood
        self.likes = self.top.like_list if c['composite'] else [self.top]

    def change(self, o):
        op, c = o['op'], self.c
        names = sorted(set(self.v) - self.lin)
        vec = self.top.vector
        if op == 'set':
            n = names[o['i'] % len(names)]
            self.v[n] = _new(n, self.v[n], o['f'])
            if o['how'] == 'row':
                vec.vector[vec.indices[n]][0] = self.v[n]
            else:
                vec.vector_to_dict()
                self.top.params[n].value = self.v[n]
                vec.dict_to_vector()
        elif op == 'flag':
            n = names[o['i'] % len(names)]
            if self.vary[n] and sum(self.vary.values()) == 1:
                return
            self.vary[n] = not self.vary[n]
            vec.vector_to_dict()
            self.top.params[n].vary = self.vary[n]
            vec.dict_to_vector()
            for like in [self.top] + list(self.likes):
                like.list_vary_params()
        elif op == 'base':
            c['time_base'] = o['f']
            self.likes[0].model.time_base = o['f']
        else:
            k = o['k'] % len(self.likes)
            ins, like = c['insts'][k], self.likes[k]
            if op == 'y':
                ins['v'] = [x + o['f'] for x in ins['v']]
                like.y = np.array(like.y) + o['f']
            elif op == 'swap':
                # the same values, elsewhere
                s = np.argsort(ins['t']) if ins['kind'] == 'gp' and ins['kernel'] == 'Celerite' else np.arange(len(ins['t']))
                like.y = np.array(like.y)[::-1].copy()
                w = np.empty(len(s))
                w[s] = like.y
                ins['v'] = w.tolist()
            else:
                ins['err'] = [x * o['f'] for x in ins['err']]
                like.yerr = np.array(like.yerr) * o['f']

    def evaluate(self, o):
        op, c, v = o['op'], self.c, self.v
        k = o['k'] % len(self.likes)
        like, ins = self.likes[k], c['insts'][k]
        if op in ('array', 'neg'):
            names = [n for n in self.top.vector.names if self.vary.get(n)]
            got = self.top.name_vary_params()
            require(sorted(got) == sorted(names), "free parameters", got=got, expected=names)
            if o['new']:
                for i, n in enumerate(got):
                    v[n] = _new(n, v[n], o['f'][i % 6])
            x = np.array([v[n] for n in got])
            keep = x.copy()
            ll = self.top.logprob_array(x) if op == 'array' else -self.top.neglogprob_array(x)
            require(np.array_equal(x, keep), "an evaluation changed its argument")
            close(ll, conf.ref_loglike(c, v), rtol=0, atol=conf.ll_tol(c, v), msg="log-likelihood of an array of values", op=op)
        elif op == 'logprob':
            close(self.top.logprob(), conf.ref_loglike(c, v), rtol=0, atol=conf.ll_tol(c, v), msg="log-likelihood after a history")
        elif op == 'part':
            close(like.logprob(), conf.ref_instrument(c, ins, v)['ll'], rtol=0, atol=conf.ll_tol(c, v), msg="log-likelihood of one instrument after a history")
        elif op == 'errorbars':
            want = np.sqrt(np.concatenate([conf.ref_instrument(c, i, v)['var'] for i in c['insts']]))
            close(self.top.errorbars(), want, rtol=1e-12, atol=0, msg="error bars after a history")
        elif op == 'residuals':
            if ins['kind'] != 'gp':
                r = conf.ref_instrument(c, ins, v)
                close(like.residuals(), r['resid'], rtol=0, atol=self.tol(r), msg="residuals after a history")
        else:
            t = np.array([o['t'][i % len(o['t'])] + 0.37 * i for i in range(len(ins['t']))])
            t[0], t[-1] = ins['t'][0], ins['t'][-1]
            close(like.model(t), conf.ref_model(c, v, t), rtol=0, atol=self.tol(dict(t=t, resid=t)), msg="model after a history")

    def tol(self, r):
        c = self.c
        orbits = [rvx.decode(c['basis'], {p: self.v['%s%d' % (p, i + 1)] for p in c['basis'].split()}) for i in range(len(c['orbits']))]
        return rvx.total_tol(r['t'], orbits) + 1e-9 * sum(abs(o['k']) / (1 - min(o['e'], 0.99)) ** 2.5 for o in orbits) + \
            1e-9 * (1 + float(np.max(np.abs(r['resid']))))


def run(c, ctx):
    # two systems alike at the start: what is done to one has no effect on the other
    both = [State(c), State(c)]
    for s in both:
        s.evaluate(dict(op='logprob', k=0))
    seen = set()
    for ch, ev, k in c['ops']:
        both[k].change(ch)
        both[k].evaluate(ev)
        seen |= {ch['op'], ev['op']}
        both[1 - k].evaluate(dict(ev, new=False))
    for s in both:
        s.evaluate(dict(op='logprob', k=0))
        for n, val in s.v.items():
            if n not in s.lin:
                require(s.top.vector.vector[s.top.vector.indices[n]][0] == val, "a parameter has a value that was not given", name=n)
    ctx.nontrivial('set' in seen and bool(seen & {'y', 'err', 'swap', 'base', 'flag'}))
    ctx.label(*sorted(seen))
