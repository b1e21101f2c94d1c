"""C10/C11: histories of evaluations of a GP likelihood against exact Gaussian conditioning."""
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, rvx
from vlib.core import close, fail, require


@st.composite
def case(draw, kernels, zero=True, nmax=12):
    c = draw(conf.config(max_planets=2, max_inst=2, kinds=('gp',), kernels=kernels, nmin=1, nmax=nmax))
    op = st.one_of(
        st.just(dict(op='logprob')), st.just(dict(op='residuals')), st.just(dict(op='errorbars')), st.just(dict(op='repr')),
        st.fixed_dictionaries(dict(op=st.just('predict'), t=st.lists(gen.fl(-30, 150), min_size=1, max_size=12),
                                   at=st.sampled_from(['t', 't', 'data', 'rev', 'some']))),
        st.fixed_dictionaries(dict(op=st.just('array'), f=st.lists(gen.fl(0.5, 2.0), min_size=8, max_size=8))),
        st.fixed_dictionaries(dict(op=st.just('set'), i=st.integers(0, 99), f=gen.fl(0.3, 3.0), how=st.sampled_from(['vector', 'dict']))),
        st.fixed_dictionaries(dict(op=st.just('off'), i=st.integers(0, 99), on=gen.fl(0.5, 5.0))) if zero else st.just(dict(op='jit0')),
        st.fixed_dictionaries(dict(op=st.just('negjit'), i=st.integers(0, 99))))
    c['ops'] = draw(st.lists(op, min_size=3, max_size=12))
    c['which'] = draw(st.integers(0, 1))
    return c


def _new(n, v, f):
    """A changed value that stays in the parameter's domain."""
    if n.startswith(('gp_', 'per', 'jit', 'k')) and not n.startswith('my'):
        return v * f
    if n.startswith(('secosw', 'sesinw', 'ecosw', 'esinw')) or (n[0] == 'e' and n[1:].isdigit()) or n.startswith('se'):
        return v * min(f, 1.0 / f)
    if n.startswith('logper'):
        return v + np.log(f) * 0.5
    return v + (f - 1.0)


class Model:
    def __init__(self, c):
        self.c = c
        self.post, vals = conf.build(c)
        self.v = conf.values_of(vals)
        self.vary = {n: x[1] for n, x in vals.items()}
        likes = self.post.likelihood.like_list if c['composite'] else [self.post.likelihood]
        self.k = c['which'] % len(likes)
        self.like, self.ins = likes[self.k], c['insts'][self.k]
        self.top = self.post.likelihood

    def ref(self):
        return conf.ref_instrument(self.c, self.ins, self.v)

    def orbit_tol(self, r):
        c = self.c
        orbits = [rvx.decode(c['basis'], {p: self.v['%s%d' % (p, i + 1)] for p in c['basis'].split()}) for i in range(len(c['orbits']))]
        return float(np.max(rvx.total_tol(r['t'], orbits) + 1e-9 * sum(o['k'] / (1 - min(o['e'], 0.99)) ** 2.5 for o in orbits)))

    def predict(self, xp):
        r = self.ref()
        hp = conf.ref_hp(self.ins, self.v)
        Ks = conf.kernel_matrix(self.ins['kernel'], hp, xp, r['t'])
        Kss = conf.kernel_matrix(self.ins['kernel'], hp, xp, xp)
        sol = np.linalg.solve(r['K'], np.column_stack([r['resid'], Ks.T]))
        amp2 = hp.get('gp_amp', 0) ** 2 + hp.get('gp_B', 0)
        cond = np.linalg.cond(r['K'])
        tol = 1e-13 * cond * (np.max(np.abs(r['resid'])) + 1) * (1 + len(r['t'])) + 1e-9 + \
            self.orbit_tol(r) * float(np.max(np.sum(np.abs(np.linalg.solve(r['K'], Ks.T)), axis=0)))
        return Ks @ sol[:, 0], np.diag(Kss - Ks @ sol[:, 1:]), tol, 1e-12 * cond * (amp2 + 1e-3)


def run(c, ctx):
    m = Model(c)
    data = [np.array(a) for a in (m.like.x, m.like.y, m.like.yerr)]
    r = m.ref()
    for got, want, what in zip(data, (r['t'], r['v']), ('times', 'velocities')):
        close(got, want, rtol=0, atol=0, msg=what + " of the GP instrument")
    seen = set()
    for o in c['ops'] + [dict(op='logprob'), dict(op='residuals'), dict(op='logprob')]:
        seen.add(o['op'])
        _apply(m, o)
        for a, b in zip(data, (m.like.x, m.like.y, m.like.yerr)):
            require(np.array_equal(a, b), "an operation changed the data", op=o)
    for n, v in m.v.items():
        require(m.like.vector.vector[m.like.vector.indices[n]][0] == v, "parameter value changed", name=n)
    ctx.nontrivial(len(data[0]) > 1 and bool(seen & {'set', 'array', 'off'}) and bool(seen & {'predict', 'residuals'}))
    ctx.label(c['insts'][m.k]['kernel'], *sorted(seen))


def _put(m, n, val, how='vector'):
    m.v[n] = val
    if how == 'vector':
        m.like.vector.vector[m.like.vector.indices[n]][0] = val
    else:
        m.like.vector.vector_to_dict()
        m.like.params[n].value = val
        m.like.vector.dict_to_vector()


def _check_ll(m, got, like_ref, what):
    close(got, like_ref, rtol=0, atol=conf.ll_tol(m.c, m.v), msg=what)


def _apply(m, o):
    op, like = o['op'], m.like
    if op == 'logprob':
        _check_ll(m, like.logprob(), m.ref()['ll'], "GP log-likelihood")
        _check_ll(m, m.top.logprob(), conf.ref_loglike(m.c, m.v), "total log-likelihood")
    elif op == 'errorbars':
        close(like.errorbars(), np.sqrt(m.ref()['var']), rtol=1e-12, atol=0, msg="error bars")
    elif op == 'residuals':
        r = m.ref()
        mu, var, tol, vtol = m.predict(r['t'])
        close(like.residuals(), r['resid'] - mu, rtol=0, atol=tol + m.orbit_tol(r), msg="residuals (data - orbit - GP mean)")
    elif op == 'predict':
        r = m.ref()
        xp = np.array(dict(t=o['t'], data=list(r['t']), rev=list(r['t'][::-1]), some=list(r['t'][:1]) + o['t'])[o['at']])
        x0 = xp.copy()
        mu, var, tol, vtol = m.predict(xp)
        gmu, gsd = like.predict(xp)
        require(np.shape(gmu) == np.shape(xp) and np.shape(gsd) == np.shape(xp), "shape of a prediction", got=np.shape(gmu))
        close(gmu, mu, rtol=0, atol=tol, msg="predicted mean")
        # a variance that is zero within rounding may be reported as nan by the square root of a tiny negative number
        gv = np.where(np.isnan(gsd) & (var <= vtol), 0.0, np.asarray(gsd) ** 2)
        close(gv, np.maximum(var, 0), rtol=1e-9, atol=vtol, msg="predicted variance")
        require(np.array_equal(xp, x0), "predict changed its argument")
    elif op == 'array':
        names = like.name_vary_params()
        require(set(names) == {n for n, f in m.vary.items() if f}, "free parameters", got=names)
        x = []
        for i, n in enumerate(names):
            m.v[n] = _new(n, m.v[n], o['f'][i % 8])
            x.append(m.v[n])
        _check_ll(m, m.top.logprob_array(np.array(x)), conf.ref_loglike(m.c, m.v), "logprob_array")
    elif op == 'set':
        names = sorted(m.v)
        hp = [n for n in names if n.startswith('gp_')]
        n = (names + hp * 3)[o['i'] % (len(names) + 3 * len(hp))]
        _put(m, n, _new(n, m.v[n], o['f']), o['how'])
    elif op == 'off':
        hp = sorted(conf.hname(m.ins, h) for h in conf.KERNELS[m.ins['kernel']])
        a = conf.hname(m.ins, 'gp_amp')
        if m.v[a] == 0:
            _put(m, a, o['on'])
        else:
            _put(m, a, 0.0)
            _apply(m, dict(op='logprob'))
    elif op == 'jit0':
        _put(m, 'jit_' + m.ins['name'], 0.0)
    elif op == 'negjit':
        _put(m, 'jit_' + m.ins['name'], -m.v['jit_' + m.ins['name']])
    elif op == 'repr':
        repr(like)


# ------------------------------------------------------------------ covariances that cannot be inverted

@st.composite
def singular_case(draw, kernels):
    """Two measurements without errors at one time that disagree: the data have probability zero."""
    c = draw(conf.config(max_planets=1, max_inst=2, kinds=('gp',), kernels=kernels, nmin=2, nmax=8, custom=False))
    k = draw(st.integers(0, len(c['insts']) - 1))
    ins = c['insts'][k]
    n = len(ins['t'])
    i, j = draw(st.permutations(range(n)))[:2]
    ins['jit'] = 0.0
    ins['t'][j] = ins['t'][i]
    ins['err'][i] = ins['err'][j] = 0.0
    ins['v'][j] = ins['v'][i] + draw(gen.fl(1, 30))
    c['calls'] = draw(st.lists(st.sampled_from(['logprob', 'array', 'ns', 'like', 'neg']), min_size=1, max_size=4))
    c['at'] = k
    return c


def run_singular(c, ctx):
    post, vals = conf.build(c)
    x = np.array(post.get_vary_params())
    for call in c['calls']:
        got = {'logprob': post.logprob, 'array': lambda: post.logprob_array(x), 'ns': lambda: post.likelihood_ns_array(x),
               'like': post.likelihood.logprob, 'neg': lambda: -post.neglogprob_array(x)}[call]()
        require(got <= -1e6, "contradicting measurements without errors are not improbable", call=call, got=got)
        require(call != 'ns' or np.isfinite(got), "nested-sampling value is not finite", got=got)
    ctx.nontrivial(len(c['insts'][c['at']]['t']) > 2)
    ctx.label(*c['calls'])
    ctx.label(c['insts'][c['at']]['kernel'])
