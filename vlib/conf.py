"""Whole-model configurations: generator, builder of the radvel objects, and an independent reference likelihood."""
import copy

import numpy as np
from hypothesis import strategies as st

import radvel
from . import gen, ref, rvx
from .core import require

KERNELS = {'QuasiPer': ['gp_amp', 'gp_per', 'gp_perlength', 'gp_explength'],
           'SqExp': ['gp_amp', 'gp_length'],
           'Per': ['gp_amp', 'gp_length', 'gp_per'],
           'Celerite': ['gp_B', 'gp_C', 'gp_L', 'gp_Prot']}
HRANGE = {'gp_amp': (0.5, 10), 'gp_per': (2, 30), 'gp_perlength': (0.2, 2), 'gp_explength': (5, 60), 'gp_length': (0.5, 20),
          'gp_B': (0.5, 20), 'gp_C': (0.01, 5), 'gp_L': (2, 50), 'gp_Prot': (2, 30)}
NAMES = ['j', 'k', 'hires', 'apf', 'h1', 'x_y', 'A2', 'a_b_c', 'h', 'x', 'a_b', 'jit2', 'length']
DVARS = ['air', 'airmass', 'bis', 'fwhm', 's']


@st.composite
def instrument(draw, name, kinds=('rv', 'decorr', 'gp'), nmin=2, nmax=7, linear=True, kernels=('QuasiPer', 'SqExp', 'Per'),
               jit0=True, errmin=0.3):
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(list(kinds)))
    t = draw(gen.distinct_times(0, 100, n, n))
    d = dict(name=name, kind=kind, t=t,
             v=draw(st.lists(gen.fl(-30, 30), min_size=n, max_size=n)),
             err=draw(st.lists(gen.fl(errmin, 5), min_size=n, max_size=n)),
             gamma=draw(gen.fl(-20, 20)),
             jit=draw(st.one_of(gen.fl(0.01, 5), st.just(0.0) if jit0 else gen.fl(0.1, 3))), linear=False,
             predefined=draw(st.booleans()), decorr=[])
    if kind != 'gp' and linear:
        d['linear'] = draw(st.sampled_from([False, False, True]))
    if kind == 'decorr':
        vs = draw(st.lists(st.sampled_from(DVARS), min_size=1, max_size=3, unique=True))
        for v in vs:
            d['decorr'].append(dict(var=v, c1=draw(gen.fl(-5, 5)),
                                    vec=draw(st.lists(gen.fl(-3, 10), min_size=n, max_size=n))))
    if kind == 'gp':
        k = draw(st.sampled_from(list(kernels)))
        d['kernel'] = k
        d['shared'] = draw(st.booleans())
        d['hp'] = {h: draw(gen.fl(*HRANGE[h])) for h in KERNELS[k]}
    return d


@st.composite
def config(draw, max_planets=3, max_inst=3, kinds=('rv', 'decorr', 'gp'), linear=True, custom=True, min_inst=1,
           bases=tuple(rvx.BASES), nmin=2, nmax=7, kernels=('QuasiPer', 'SqExp', 'Per'), emax=0.8, jit0=True, errmin=0.3):
    npl = draw(st.integers(1, max_planets))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=min_inst, max_size=max_inst, unique=True))
    c = dict(basis=draw(st.sampled_from(list(bases))),
             orbits=[dict(per=draw(gen.fl(1.5, 60)), tp=draw(gen.fl(-20, 80)), e=draw(st.one_of(gen.fl(0.01, emax), st.just(0.0))),
                          w=draw(gen.fl(-3.1, 3.1)), k=draw(gen.fl(0.5, 20))) for _ in range(npl)],
             dvdt=draw(st.one_of(st.none(), gen.fl(-0.5, 0.5))), curv=draw(st.one_of(st.none(), gen.fl(-0.01, 0.01))),
             time_base=draw(st.sampled_from([0.0, 50.0, 42.5])),
             custom=draw(st.booleans()) if custom else False,
             insts=[draw(instrument(n, kinds, nmin, nmax, linear, kernels, jit0, errmin)) for n in names],
             composite=draw(st.booleans()) if len(names) == 1 else True,
             mask=draw(st.integers(1, 2 ** 24 - 1)))
    if c['basis'].split()[2] in ('secosw', 'ecosw'):
        pass
    return c


def lengthen(c, lengths):
    """The same configuration with that many observations per instrument, repeated with small shifts (a GP instrument stays short)."""
    out = []
    for ins, n in zip(c['insts'], lengths):
        if ins['kind'] != 'gp' or ins['kernel'] == 'Celerite':
            m = len(ins['t'])
            k = np.arange(n)
            ins = dict(ins, t=list(np.asarray(ins['t'])[k % m] + 0.0173 * (k // m)), v=list(np.asarray(ins['v'])[k % m] + np.sin(1.7 * k)),
                       err=list(np.asarray(ins['err'])[k % m] * (1 + 0.3 * np.cos(0.9 * k))),
                       decorr=[dict(d, vec=list(np.asarray(d['vec'])[k % m] + np.sin(0.31 * k))) for d in ins['decorr']])
        out.append(ins)
    return dict(c, insts=out)


LENGTHS = st.lists(st.one_of(st.sampled_from([63, 64, 65, 100, 128, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 2048, 2500]), st.integers(30, 3000)),
                   min_size=4, max_size=4)


def suffix(c, ins):
    return '_' + ins['name']


def hname(ins, h):
    """Name of a hyperparameter: the amplitude is per instrument, the others shared or per instrument."""
    if ins['kernel'] == 'Celerite' or not ins.get('shared') or h == 'gp_amp':
        return h + '_' + ins['name']
    return h


def initial_values(c):
    """All parameter values by name, plus flags: name -> [value, vary, scale, linear]."""
    out = {}
    for i, o in enumerate(c['orbits']):
        for p, v in rvx.encode(c['basis'], o).items():
            out['%s%d' % (p, i + 1)] = [v, True, None, False]
    for n in ('dvdt', 'curv'):
        if c[n] is not None:
            out[n] = [c[n], True, None, False]
    if c['custom']:
        out['my_param'] = [1.25, True, None, False]
    for ins in c['insts']:
        s = suffix(c, ins)
        out['gamma' + s] = [ins['gamma'], not ins['linear'], None, ins['linear']]
        out['jit' + s] = [ins['jit'], True, None, False]
        for d in ins['decorr']:
            out['c1_' + d['var'] + s] = [d['c1'], True, None, False]
        if ins['kind'] == 'gp':
            for h in KERNELS[ins['kernel']]:
                out.setdefault(hname(ins, h), [ins['hp'][h], True, None, False])
    for j, k in enumerate(sorted(out)):
        if not out[k][3]:
            out[k][1] = bool((c['mask'] >> (j % 24)) & 1)
        if (c['mask'] >> ((j + 5) % 24)) & 1:
            out[k][2] = 0.1 * (j + 1)
    if not any(v[1] for v in out.values()):
        out['%s1' % c['basis'].split()[-1]][1] = True
    return out


def shared_conflict(c):
    """Two GP instruments sharing a hyperparameter name must agree on its value; and one kernel's names must not
    collide with another's."""
    seen = {}
    for ins in c['insts']:
        if ins['kind'] == 'gp':
            for h in KERNELS[ins['kernel']]:
                seen.setdefault(hname(ins, h), ins['hp'][h])
    return seen


def build(c, forward=None):
    """(posterior, values): the radvel objects and the reference description of every parameter."""
    vals = initial_values(c)
    params = radvel.Parameters(len(c['orbits']), basis=c['basis'])
    late = set()
    for ins in c['insts']:
        if not ins['predefined']:
            s = suffix(c, ins)
            late |= {'gamma' + s, 'jit' + s} | {'c1_' + d['var'] + s for d in ins['decorr']}

    def par(n):
        v = vals[n]
        return radvel.Parameter(value=v[0], vary=v[1], mcmcscale=v[2], linear=v[3])
    for n in vals:
        if n not in late:
            params[n] = par(n)
    if c['custom']:
        mod = radvel.GeneralRVModel(params, forward or custom_forward, time_base=c['time_base'])
        mod.num_planets = len(c['orbits'])
    else:
        mod = radvel.RVModel(params, time_base=c['time_base'])
    likes = []
    for ins in c['insts']:
        likes.append(make_like(c, ins, mod))
    for n in sorted(late):
        params[n] = par(n)
    for n, v in vals.items():
        params[n].vary, params[n].mcmcscale, params[n].linear = v[1], v[2], v[3]
        params[n].value = v[0]
    for like in likes:
        like.vector.dict_to_vector()
    like = radvel.likelihood.CompositeLikelihood(likes) if c['composite'] else likes[0]
    post = radvel.posterior.Posterior(like)
    return post, vals


def make_like(c, ins, mod):
    s = suffix(c, ins)
    if ins['kind'] == 'gp':
        hn = [hname(ins, h) for h in KERNELS[ins['kernel']]]
        if ins['kernel'] == 'Celerite':
            return radvel.likelihood.CeleriteLikelihood(mod, ins['t'], ins['v'], ins['err'], hn, suffix=s)
        return radvel.likelihood.GPLikelihood(mod, ins['t'], ins['v'], ins['err'], hn, suffix=s, kernel_name=ins['kernel'])
    return radvel.likelihood.RVLikelihood(mod, ins['t'], ins['v'], ins['err'], suffix=s,
                                          decorr_vars=[d['var'] for d in ins['decorr']],
                                          decorr_vectors={d['var']: np.array(d['vec']) for d in ins['decorr']})


def custom_forward(t, params, vector, planet_num=None):
    require('my_param' in vector.indices, "a user-defined parameter has no row in the vector the forward model is given")
    synth = params.basis.v_to_synth(vector)
    v = np.zeros(len(t))
    for i in range(params.num_planets) if planet_num is None else [planet_num - 1]:
        v += radvel.kepler.rv_drive(t, list(synth[5 * i:5 * i + 5, 0]))
    return v + vector.vector[vector.indices['my_param']][0] * np.cos(t / 7.0)


def ref_model(c, vals, t):
    t = np.asarray(t, float)
    orbits = []
    for i in range(len(c['orbits'])):
        orbits.append(rvx.decode(c['basis'], {p: vals['%s%d' % (p, i + 1)] for p in c['basis'].split()}))
    out = rvx.total_rv(t, orbits, vals.get('dvdt', 0.0), vals.get('curv', 0.0), c['time_base'])
    if c['custom']:
        out = out + vals['my_param'] * np.cos(t / 7.0)
    return out


def kernel_matrix(name, hp, t1, t2):
    d = np.abs(np.subtract.outer(np.asarray(t1, float), np.asarray(t2, float)))
    if name == 'SqExp':
        return hp['gp_amp'] ** 2 * np.exp(-d ** 2 / hp['gp_length'] ** 2)
    if name == 'Per':
        return hp['gp_amp'] ** 2 * np.exp(-np.sin(np.pi * d / hp['gp_per']) ** 2 / (2 * hp['gp_length'] ** 2))
    if name == 'QuasiPer':
        if hp['gp_amp'] == 0:
            return np.zeros_like(d)
        return hp['gp_amp'] ** 2 * np.exp(-d ** 2 / hp['gp_explength'] ** 2
                                          - np.sin(np.pi * d / hp['gp_per']) ** 2 / (2 * hp['gp_perlength'] ** 2))
    if name == 'Celerite':
        B, C, L, P = hp['gp_B'], hp['gp_C'], hp['gp_L'], hp['gp_Prot']
        return B / (2 + C) * np.exp(-d / L) * (np.cos(2 * np.pi * d / P) + (1 + C))
    raise KeyError(name)


def ref_hp(ins, vals):
    return {h: vals[hname(ins, h)] for h in KERNELS[ins['kernel']]}


def ref_instrument(c, ins, vals):
    """dict: resid (orbit, offset and decorrelation removed), var (diagonal), loglike, gamma used, order of data."""
    s = suffix(c, ins)
    t, v, err = (np.asarray(ins[k], float) for k in ('t', 'v', 'err'))
    if ins['kind'] == 'gp' and ins['kernel'] == 'Celerite':
        o = np.argsort(t)
        t, v, err = t[o], v[o], err[o]
    r = v - ref_model(c, vals, t)
    for d in ins['decorr']:
        vec = np.asarray(d['vec'], float)
        r = r - vals['c1_' + d['var'] + s] * (vec - vec.mean())
    var = err ** 2 + vals['jit' + s] ** 2
    gamma = vals['gamma' + s]
    if ins['linear']:
        w = 1 / var
        gamma = float(np.sum(w * r) / np.sum(w))
        rr = r - gamma
        ll = -0.5 * np.sum(w * rr ** 2) - 0.5 * np.sum(np.log(2 * np.pi * var)) + 0.5 * np.log(2 * np.pi / np.sum(w))
        return dict(t=t, v=v, resid=rr, var=var, ll=float(ll), gamma=gamma)
    rr = r - gamma
    if ins['kind'] == 'gp':
        K = kernel_matrix(ins['kernel'], ref_hp(ins, vals), t, t) + np.diag(var)
        L = np.linalg.cholesky(K)
        z = np.linalg.solve(L, rr)
        ll = -0.5 * z @ z - np.sum(np.log(np.diag(L))) - 0.5 * len(t) * np.log(2 * np.pi)
        return dict(t=t, v=v, resid=rr, var=var, ll=float(ll), gamma=gamma, K=K)
    ll = -0.5 * np.sum(rr ** 2 / var) - 0.5 * np.sum(np.log(2 * np.pi * var))
    return dict(t=t, v=v, resid=rr, var=var, ll=float(ll), gamma=gamma)


def ref_loglike(c, vals):
    return float(sum(ref_instrument(c, ins, vals)['ll'] for ins in c['insts']))


def ll_tol(c, vals):
    """Tolerance for log-likelihoods: first-order effect of the velocity error bound on chi^2, plus conditioning."""
    tol = 1e-9
    orbits = [rvx.decode(c['basis'], {p: vals['%s%d' % (p, i + 1)] for p in c['basis'].split()})
              for i in range(len(c['orbits']))]
    for ins in c['insts']:
        r = ref_instrument(c, ins, vals)
        dv = rvx.total_tol(r['t'], orbits) + 1e-10 * sum(abs(o['k']) / (1 - min(o['e'], 0.99)) ** 2.5 for o in orbits)
        cond = 1.0
        if 'K' in r:
            cond = np.linalg.cond(r['K'])
            sc = np.abs(np.linalg.solve(r['K'], r['resid']))
        else:
            sc = np.abs(r['resid']) / r['var']
        tol += float(np.sum(sc * dv)) * 2 + 1e-13 * cond * (1 + abs(r['ll'])) + 1e-11 * abs(r['ll'])
    return tol


def values_of(vals):
    return {k: v[0] for k, v in vals.items()}
