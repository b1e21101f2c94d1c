"""C14: the posterior is priors plus likelihood, and a function of its argument."""
import math

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, pri, rvx
from vlib.core import Sub, close, fail, require
from vlib.gpcheck import _new

PROPERTY = "C14"
RULE = ("a model with 1-3 instruments, up to 5 priors and constraints, and 5-14 evaluations at up to four different arrays of free "
        "parameters; non-trivial: at least one prior and at least two different arrays")
KINDS = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'UserDefined', 'Baseline']


@st.composite
def case(draw, kernels):
    c = draw(conf.config(max_planets=2, max_inst=3, nmin=1, nmax=6, kernels=kernels, emax=0.7))
    vals = conf.initial_values(c)
    names = sorted(n for n in vals if not vals[n][3])
    pr = []
    for n in draw(st.lists(st.sampled_from(names), max_size=4)):
        d = draw(pri.spec(n, vals[n][0], KINDS))
        if d['kind'] == 'Baseline' and not n.startswith(('per', 'logper')):
            d = draw(pri.spec(n, vals[n][0], ['Gaussian', 'HardBounds']))
        pr.append(dict(d, constraint=draw(st.sampled_from([False, False, True]))))
    op = st.fixed_dictionaries(dict(op=st.sampled_from(['array', 'array', 'array', 'neg', 'ns', 'extra', 'logprob', 'like', 'resid', 'repr',
                                                        'aic', 'slow', 'transform', 'prior', 'fix', 'again']), x=st.integers(0, 3)))
    return dict(conf=c, priors=pr, cons=draw(st.lists(pri.constraint(c['basis'], len(c['orbits'])), max_size=2)),
                xs=draw(st.lists(st.lists(st.one_of(gen.fl(0.8, 1.25), gen.fl(0.3, 3), gen.fl(-2, -0.2)), min_size=10, max_size=10),
                                 min_size=2, max_size=3)),
                ops=draw(st.lists(op, min_size=5, max_size=14)))


def _value(n, v, f):
    """A value of parameter n for factor f; negative factors only where the model stays defined."""
    if f < 0:
        if n.startswith(('k', 'gamma', 'jit', 'dvdt', 'curv', 'c1_', 'secosw', 'sesinw', 'my')):
            return v * f if not n.startswith(('secosw', 'sesinw')) else -v * min(-f, 1.0)
        f = -f + 0.1
    return _new(n, v, f)


class Ref(object):
    def __init__(self, c):
        self.c = c
        self.post, vals = conf.build(c['conf'])
        self.vals = conf.values_of(vals)
        self.flags = {n: v[1] for n, v in vals.items()}
        self.lin = {'gamma_' + i['name'] for i in c['conf']['insts'] if i['linear']}
        self.main = [(pri.make(d), d, d['constraint']) for d in c['priors']]
        for p, d, x in self.main:
            if x:
                p.extra_constraint = True
        self.cons = [(pri.make_constraint(d), d, True) for d in c['cons']]
        allp = self.main + self.cons
        self.order = allp if len(c['ops']) % 2 else allp[::-1]
        self.off = set()
        self.post.priors = [p for p, _, _ in self.order]

    def toggle(self, k):
        """Take prior k out of the posterior's list, or put it back."""
        self.off ^= {k % len(self.order)}
        self.post.priors = [p for i, (p, _, _) in enumerate(self.order) if i not in self.off]

    def priors(self, v, which):
        """(sum of log-priors, tolerance) over which in 'all', 'constraint', 'proper'; None when too close to a boundary."""
        tot, tol, clipped = 0.0, 1e-10, 0.0
        for i, (p, d, x) in enumerate(self.order):
            if i in self.off or (which != 'all' and (which == 'constraint') != x):
                continue
            if 'param' in d:
                if pri.near_edge(d, v[d['param']]):
                    return None
                val, t = pri.logpdf(d, v[d['param']]), 1e-9
                if d['kind'] == 'ModifiedJeffreys' and np.isfinite(val):
                    t += 1e-13 * (abs(d['lo']) + abs(d['knee']) + 1) * (1 / (d['lo'] - d['knee']) + 1 / (v[d['param']] - d['knee'])
                                                                      + 1 / (d['hi'] - d['lo']))
            else:
                val, t = pri.constraint_logpdf(d, self.c['conf']['basis'], v)
                if val is None:
                    return None
            if not np.isfinite(val):
                clipped += 1
            else:
                tol += t + 1e-10 * abs(val)
                tot += val
        return tot, tol, clipped


def check(c, ctx):
    r = Ref(c)
    post, cc = r.post, c['conf']
    free = post.name_vary_params()
    require(set(free) == {n for n, f in r.flags.items() if f}, "free parameters")
    fixed = {n: v for n, v in r.vals.items() if n not in free}
    arrays = [np.array([r.vals[n] for n in free])]
    for f in c['xs']:
        arrays.append(np.array([_value(n, r.vals[n], f[i % 10]) for i, n in enumerate(free)]))
    prior_state = [{k: repr(v) for k, v in vars(p).items()} for p in post.priors]
    used = set()
    cur = arrays[0]
    memo = {}
    for o in c['ops'] + [dict(op='array', x=0), dict(op='array', x=1)]:
        k = o['x'] % len(arrays)
        x = arrays[k].copy()
        op = o['op']
        if op == 'prior' and r.order:
            # the list of priors, or a fixed parameter, changes and the same array is evaluated again
            r.toggle(o['x'])
            prior_state = [{k_: repr(v_) for k_, v_ in vars(p).items()} for p in post.priors]
        elif op == 'fix' and any(n not in r.lin for n in fixed):
            n = [n for n in sorted(fixed) if n not in r.lin][o['x'] % sum(n not in r.lin for n in fixed)]
            fixed[n] = float(_new(n, fixed[n], 1.07))
            post.params[n].value = fixed[n]
            post.vector.vector[post.vector.indices[n]][0] = fixed[n]
        if op in ('prior', 'fix'):
            memo = {}
            op = 'array'
        if op == 'again':
            op, x = 'array', np.array(cur)
            k = next(j for j in range(len(arrays)) if np.array_equal(arrays[j], cur))
        elif o['op'] in ('prior', 'fix'):
            x = np.array(cur)
            k = next(j for j in range(len(arrays)) if np.array_equal(arrays[j], cur))
        if op in ('array', 'neg', 'ns', 'extra', 'slow'):
            cur = x
            used.add(k)
        v = dict(fixed, **dict(zip(free, map(float, cur))))
        P = r.priors(v, 'all')
        ll, lt = conf.ref_loglike(cc, v), conf.ll_tol(cc, v)
        if op in ('array', 'neg', 'slow', 'logprob'):
            if op == 'array':
                got = post.logprob_array(x)
            elif op == 'neg':
                got = -post.neglogprob_array(x)
            elif op == 'slow':
                post.set_vary_params(x)
                for n, val in zip(free, x):
                    require(post.params[n].value == val, "set_vary_params does not reach the named parameter", name=n)
                got = post.logprob()
            else:
                got = post.logprob()
            if P is not None:
                tot, tol, bad = P
                want = -math.inf if bad else tot + ll
                close(got, want, rtol=0, atol=tol + lt, msg="log-posterior is not priors + likelihood", op=op)
                ctx.label("forbidden" if bad else "allowed")
            if k in memo and op == 'array':
                require(memo[k] == got or abs(memo[k] - got) <= 1e-10 * (1 + abs(got)), "the value depends on what was evaluated before",
                        first=memo[k], now=got)
            if op == 'array':
                memo[k] = got
        elif op == 'ns' or op == 'extra':
            Q = r.priors(v, 'constraint')
            got = post.likelihood_ns_array(x) if op == 'ns' else post.extra_likelihood_array(x)
            require(np.isfinite(got), "nested-sampling value is not finite", got=got)
            if Q is not None:
                tot, tol, bad = Q
                base = ll if op == 'ns' else 0.0
                if bad:
                    require(got <= -1e99, "a violated constraint does not dominate the nested-sampling value", got=got)
                else:
                    close(got, base + tot, rtol=0, atol=tol + lt, msg="nested-sampling value (%s)" % op)
                    R = r.priors(v, 'proper')
                    if op == 'ns' and P is not None and R is not None and not P[2]:
                        close(got + R[0], post.logprob(), rtol=0, atol=2 * (P[1] + lt), msg="nested-sampling value and proper priors do not "
                              "make up the posterior")
        elif op == 'like':
            close(post.likelihood.logprob(), ll, rtol=0, atol=lt, msg="likelihood of the posterior")
        elif op == 'resid':
            a = post.residuals()
            require(len(a) == sum(len(i['t']) for i in cc['insts']), "number of residuals")
        elif op == 'repr':
            s = repr(post)
            for n in r.vals:
                require(n in s, "a parameter is missing from the printed posterior", name=n)
        elif op == 'aic':
            post.aic(), post.bic()
        elif op == 'transform':
            post.get_prior_dict()
        require(np.array_equal(x, arrays[k]), "an evaluation changed its argument", op=op)
        for n, val in v.items():
            if n in r.lin:
                continue
            row = post.vector.vector[post.vector.indices[n]]
            require(row[0] == val, "a parameter has a value that was not given", name=n, got=row[0], want=val, op=op)
            require(bool(row[1]) == r.flags[n] and post.params[n].vary == r.flags[n], "a vary flag changed", name=n, op=op)
        require([{k_: repr(v_) for k_, v_ in vars(p).items()} for p in post.priors] == prior_state, "a prior changed", op=op)
    ctx.nontrivial(len(used) > 1 and len(post.priors) > 0)
    ctx.label(*["%s%s" % (d['kind'], '*' if x else '') for _, d, x in r.main + r.cons])


SUBCHECKS = [Sub("history", case(('QuasiPer', 'SqExp', 'Per')), check, quick=350, thorough=5000, weight=3),
             Sub("celerite", case(('Celerite',)), check, quick=150, thorough=2000, weight=2),
             Sub("more", case(('QuasiPer', 'Celerite')), check, quick=200, thorough=3000, weight=2)]
