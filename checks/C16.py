"""C16: information criteria and model comparison."""
import collections
import contextlib
import io
import itertools

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, pri, rvx
from vlib.core import Sub, close, fail, require
from checks.C15 import same_state, state
from checks.C17 import quiet

PROPERTY = "C16"
RULE = ("criteria: a posterior with any free parameters; comparison: 1-2 planets, 1-2 instruments, any group of amplitudes, eccentricities, "
        "trend terms, jitters and GP hyperparameters free and any kinds of comparison; non-trivial: at least one free parameter "
        "(criteria), at least two models listed (comparison)")
LNL = r'$\ln{\mathcal{L}}$'
NF, ND = r'$N_{\rm free}$', r'$N_{\rm data}$'


# ------------------------------------------------------------------ BIC and AICc

@st.composite
def crit_case(draw):
    c = draw(conf.config(max_planets=2, max_inst=3, nmin=1, nmax=8, kernels=('QuasiPer', 'SqExp', 'Celerite'), emax=0.7))
    return dict(conf=c, prior=draw(st.booleans()))


def check_crit(c, ctx):
    post, vals = conf.build(c['conf'])
    free = post.name_vary_params()
    if c['prior']:
        post.priors = [radvel.prior.Gaussian(n, vals[n][0] + 1.0, 2.0) for n in free]
    v = conf.values_of(vals)
    ll, tol = conf.ref_loglike(c['conf'], v), conf.ll_tol(c['conf'], v)
    n, k = sum(len(i['t']) for i in c['conf']['insts']), len(free)
    bic = k * np.log(n) - 2 * ll
    aic = 2 * k - 2 * ll + (2.0 * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else np.inf)
    with quiet(), contextlib.redirect_stdout(io.StringIO()):
        for o, name in ((post, 'posterior'), (post.likelihood, 'likelihood')):
            for _ in range(2):
                close(o.bic(), bic, rtol=0, atol=2 * tol + 1e-9 * (1 + abs(bic)), msg="BIC of the " + name, n=n, k=k)
                close(o.aic(), aic, rtol=0, atol=2 * tol + (1e-9 * (1 + abs(aic)) if np.isfinite(aic) else 0), msg="AICc of the " + name, n=n, k=k)
        if c['conf']['composite']:
            for like, ins in zip(post.likelihood.like_list, c['conf']['insts']):
                m = len(ins['t'])
                lli = conf.ref_instrument(c['conf'], ins, v)['ll']
                close(like.bic(), k * np.log(m) - 2 * lli, rtol=1e-9, atol=2 * tol + 1e-9, msg="BIC of one instrument", n=m, k=k)
    ctx.nontrivial(k > 0)
    ctx.label('n-k-1<=0' if n - k - 1 <= 0 else 'n-k-1>0')


# ------------------------------------------------------------------ model comparison

def group(n):
    """What kind of thing a parameter is in the comparison."""
    return n


@st.composite
def comp_case(draw, gp=False, linear=True):
    basis = draw(st.sampled_from(['per tp e w k', 'per tc secosw sesinw k', 'per tc ecosw esinw k', 'logper tc secosw sesinw k', 'per tc se w k']
                                 if linear else rvx.BASES))
    npl = draw(st.integers(1, 2 if not gp else 1))
    n = draw(st.integers(6, 10))
    names = draw(st.lists(st.sampled_from(['h', 'a_b', 'j2']), min_size=1, max_size=2, unique=True))
    insts = []
    for i, nm in enumerate(names):
        d = dict(name=nm, kind='rv', t=draw(gen.spread_times(n)), v=draw(st.lists(gen.fl(-20, 20), min_size=n, max_size=n)),
                 err=draw(st.lists(gen.fl(1.0, 3), min_size=n, max_size=n)), gamma=draw(gen.fl(-3, 3)), jit=draw(gen.fl(0.3, 2)), linear=False,
                 predefined=True, decorr=[])
        if gp and i == 0:
            k = draw(st.sampled_from(['SqExp', 'QuasiPer', 'Per']))
            d.update(kind='gp', kernel=k, shared=draw(st.booleans()), hp={h: draw(gen.fl(*conf.HRANGE[h])) for h in conf.KERNELS[k]})
        insts.append(d)
    c = dict(basis=basis, orbits=[dict(per=draw(gen.fl(3, 30)), tp=draw(gen.fl(0, 30)), e=draw(gen.fl(0.05, 0.5)), w=draw(gen.fl(-3, 3)),
                                       k=draw(gen.fl(2.0, 10.0))) for _ in range(npl)],
             dvdt=draw(st.sampled_from([0.05, -0.02])), curv=draw(st.sampled_from([None, 0.001])), time_base=50.0,
             custom=draw(st.sampled_from([False, False, True])), insts=insts, composite=draw(st.booleans()) if len(insts) == 1 else True, mask=0)
    free = dict(k=[draw(st.sampled_from([True, True, False])) for _ in range(npl)], e=[draw(st.sampled_from([0, 0, 3, 3, 1, 2])) for _ in range(npl)],
                dvdt=draw(st.sampled_from([True, True, False])), curv=draw(st.booleans()), jit=[draw(st.sampled_from([False, False, True])) for _ in insts],
                gamma=[draw(st.sampled_from([True, True, False])) for _ in insts], gp=draw(st.sampled_from([True, True, False])),
                tc=draw(st.sampled_from([False, False, True])) if not linear else False, custom=draw(st.booleans()))
    kinds = ['nplanets', 'trend', 'e', 'jit'] + (['gp'] if gp else [])
    want = draw(st.lists(st.sampled_from(kinds + (['gp'] * 2 if gp else [])), min_size=1, max_size=2, unique=True))
    if draw(st.integers(0, 9)) == 9:
        want.append('gp')
    return dict(conf=c, free=free, kinds=sorted(set(want), key=want.index), priors=[draw(st.sampled_from(['none', 'none', 'excl', 'gauss'])) for _ in range(3)],
                letters=draw(st.booleans()), earlier=draw(st.integers(0, 2)))


def eparams(basis):
    return [p for p in basis.split()[2:4] if p[-1] == 'w' or p in ('e', 'se')] if 'tp' not in basis else ['e', 'w']


def free_set(c):
    f, cc = c['free'], c['conf']
    b = cc['basis'].split()
    out = []
    for i in range(len(cc['orbits'])):
        if f['k'][i]:
            out.append('%s%d' % (b[4], i + 1))
        if f['e'][i]:
            out += ['%s%d' % (p, i + 1) for j, p in enumerate(b[2:4]) if int(f['e'][i]) & (1 << j)]
        if f['tc']:
            out.append('%s%d' % (b[1], i + 1))
    for n in ('dvdt', 'curv'):
        if f[n] and cc[n] is not None:
            out.append(n)
    for j, ins in enumerate(cc['insts']):
        if f['jit'][j]:
            out.append('jit_' + ins['name'])
        if f['gamma'][j]:
            out.append('gamma_' + ins['name'])
        if ins['kind'] == 'gp' and f['gp']:
            out += [conf.hname(ins, h) for h in conf.KERNELS[ins['kernel']]]
    if cc['custom'] and f['custom']:
        out.append('my_param')
    return out or ['gamma_' + cc['insts'][0]['name']]


def models(c, free):
    """Expected models: list of dict(name -> frozen value) for what is taken away."""
    cc = c['conf']
    b = cc['basis'].split()
    npl = len(cc['orbits'])
    out = [dict()]

    def cross(choices):
        return [dict(m, **x) for m in out for x in choices]
    kinds = set(c['kinds'])
    if 'gp' in kinds:
        ch = [dict()]
        for ins in cc['insts']:
            if ins['kind'] == 'gp':
                hs = [conf.hname(ins, h) for h in conf.KERNELS[ins['kernel']]]
                if any(h in free for h in hs):
                    ch.append({h: 0.0 if h.startswith('gp_amp') else None for h in hs})
        out = cross(ch)
    if 'jit' in kinds:
        js = [n for n in free if n.startswith('jit')]
        if js:
            out = cross([dict(), {j: 1e-6 for j in js}])
    if 'trend' in kinds:
        ch, cur = [dict()], dict()
        for n in ('curv', 'dvdt'):
            if n in free:
                cur = dict(cur, **{n: 0.0})
                ch.append(cur)
        out = cross(ch)
    if 'nplanets' in kinds:
        ch = [dict()]
        for r in range(1, npl + 1):
            for g in itertools.combinations(range(1, npl + 1), r):
                if all(any('%s%d' % (p, i) in free for p in b) for i in g):
                    d = {}
                    for i in g:
                        d.update({'%s%d' % (p, i): None for p in b[:4]})
                        d['%s%d' % (b[4], i)] = 0.0 if b[4] == 'k' else -np.inf
                    ch.append(d)
        out = cross(ch)
    if 'e' in kinds:
        res = []
        for m in out:
            res.append(m)
            for r in range(1, npl + 1):
                for g in itertools.combinations(range(1, npl + 1), r):
                    if all(any('%s%d' % (p, i) in free and '%s%d' % (p, i) not in m for p in b[2:4]) for i in g):
                        res.append(dict(m, **{'%s%d' % (p, i): 0.0 for p in b[2:4] for i in g}))
        out = res
    return out


def labels(c, free, letters):
    """The list of free parameters shown for a model."""
    cc = c['conf']
    b = cc['basis'].split()
    out = []
    for i in range(1, len(cc['orbits']) + 1):
        if '%s%d' % (b[4], i) in free:
            out.append('$K_{%s}$' % letters[i])
        if '%s%d' % (b[2], i) in free:
            out.append('$e_{%s}$' % letters[i])
    if 'dvdt' in free:
        out.append(r'$\dot{\gamma}$')
    if 'curv' in free:
        out.append(r'$\ddot{\gamma}$')
    if any(n.startswith('jit') for n in free):
        out.append(r'{$\sigma$}')
    for n in free:
        if n.startswith('gp_amp'):
            out.append(r'GP$_{\rm %s}$' % n[6:].replace('_', ''))
    return out


def wls(cc, base, free):
    """Maximum of the log-likelihood over the free parameters of a linear model, with the parameters where it is attained."""
    zero = dict(base, **{n: 0.0 for n in free})
    A, y, w = [], [], []
    for ins in cc['insts']:
        f = lambda v: conf.ref_model(cc, v, ins['t']) + v['gamma_' + ins['name']]
        b = f(zero)
        A.append(np.array([f(dict(zero, **{n: 1.0})) - b for n in free]).T.reshape(len(ins['t']), len(free)))
        y.append(np.array(ins['v']) - b)
        w.append(1 / (np.array(ins['err']) ** 2 + base['jit_' + ins['name']] ** 2))
    A, y, w = np.vstack(A), np.concatenate(y), np.concatenate(w)
    if not free:
        best = zero
    else:
        H, g = A.T @ (A * w[:, None]), A.T @ (w * y)
        s = np.sqrt(np.diag(H))
        if np.any(s == 0) or np.linalg.cond(H / np.outer(s, s)) > 12:
            return None
        best = dict(zero, **dict(zip(free, np.linalg.solve(H, g))))
    r = [conf.ref_instrument(cc, ins, best) for ins in cc['insts']]
    return sum(x['ll'] for x in r), best, np.std(np.concatenate([x['resid'] for x in r]))


def check_comp(c, ctx):
    cc = c['conf']
    post, vals = conf.build(cc)
    free = free_set(c)
    for n in post.params:
        post.params[n].vary = n in free
    npl = len(cc['orbits'])
    letters = {i: 'bcd'[i - 1] for i in range(1, npl + 1)}
    if c['letters']:
        letters = {i: 'xyz'[i - 1] for i in range(1, npl + 1)}
        post.params.planet_letters = dict(letters)
    post.vector.dict_to_vector()
    post.list_vary_params()
    post.likelihood.list_vary_params()
    post.vparams_order = post.list_vary_params()
    v0 = conf.values_of(vals)
    order = list(post.name_vary_params())
    bounded = {}
    for n in order:
        if n.startswith('gp_') or n.startswith('jit'):
            post.priors.append(radvel.prior.HardBounds(n, 0.3 * v0[n], 3 * v0[n]))
        elif n.startswith(('logper', 'per', 'tc', 'tp')):
            post.priors.append(radvel.prior.HardBounds(n, v0[n] - 0.5, v0[n] + 0.5))
        elif n.startswith('logk'):
            post.priors.append(radvel.prior.HardBounds(n, v0[n] - 3, v0[n] + 3))
        elif c['priors'][len(n) % 3] == 'excl':
            w = abs(v0[n])
            bounded[n] = (v0[n] - 0.9 * w, v0[n] + 8 * w)
            post.priors.append(radvel.prior.HardBounds(n, *bounded[n]))
        elif c['priors'][len(n) % 3] == 'gauss' and n.startswith('k'):
            bounded[n] = None
            post.priors.append(radvel.prior.Gaussian(n, v0[n], 0.5))
    if any(e in n for n in order for e in ('e1', 'e2', 'cosw', 'sinw')):
        post.priors.append(radvel.prior.EccentricityPrior(npl, 0.9))
    with quiet(), contextlib.redirect_stdout(io.StringIO()):
        if not np.isfinite(post.logprob()):
            ctx.label('start forbidden')
            return
        before = state(post)
        if c['earlier'] == 0:
            got = radvel.fitting.model_comp(post, params=list(c['kinds']))
            got = list(got)
            again = radvel.fitting.model_comp(post, params=[])
            require(len(again) == 1, "a comparison also lists the models of an earlier one", n=len(again))
        else:
            old = [collections.OrderedDict(AICc=(1.0, 'x'), n=i) for i in range(c['earlier'])]
            mine = [dict(x) for x in old]
            kinds = list(c['kinds'])
            res = radvel.fitting.model_comp(post, params=kinds, mc_list=old)
            require([dict(x) for x in res[:len(mine)]] == mine, "earlier results are not kept in front")
            require(kinds == c['kinds'], "the list of comparison kinds was changed")
            got = list(res[len(mine):])
        same_state(before, state(post), "comparing models changed the posterior")
    want = models(c, free)
    ndata = sum(len(i['t']) for i in cc['insts'])
    exp = []
    for m in want:
        fr = [n for n in order if n not in m]
        exp.append((sorted(labels(c, fr, letters)), len(fr), m, fr))
    sig = lambda x: (tuple(x[0]), x[1])
    found = sorted((tuple(sorted(g['Free Params'][0])), g[NF][0]) for g in got)
    require(found == sorted(map(sig, exp)), "the models compared are not the ones requested", got=found, want=sorted(map(sig, exp)), kinds=c['kinds'])
    used = [False] * len(got)
    for lab, nf, m, fr in exp:
        # statistics of the entries with this label and number of free parameters
        cand = [i for i, g in enumerate(got) if not used[i] and (tuple(sorted(g['Free Params'][0])), g[NF][0]) == (tuple(lab), nf)]
        same = [x for x in exp if sig(x) == (tuple(lab), nf)]
        i = cand[0]
        used[i] = True
        g = got[i]
        ll, bic, aic = g[LNL][0], g['BIC'][0], g['AICc'][0]
        require(g[ND][0] == ndata, "number of data", got=g[ND][0], want=ndata)
        close(bic, nf * np.log(ndata) - 2 * ll, rtol=0, atol=0.016, msg="BIC listed is not that of the likelihood listed", nfree=nf)
        d = ndata - nf - 1
        close(aic, 2 * nf - 2 * ll + (2 * nf * (nf + 1) / d if d > 0 else np.inf), rtol=0, atol=0.016,
              msg="AICc listed is not that of the likelihood listed", nfree=nf)
        if len(same) > 1:
            ctx.label('ambiguous')
            continue
        base = dict(v0, **{n: v for n, v in m.items() if v is not None})
        cc2 = cc
        if any(n.startswith('gp_amp') and v == 0.0 for n, v in m.items()):
            cc2 = dict(cc, insts=[dict(x, kind='rv') for x in cc['insts']])
        if any(n.startswith('logk') for n in m):
            base.update({n: -80.0 for n in m if n.startswith('logk')})
        if all(n.startswith(('k', 'gamma', 'dvdt', 'curv', 'my_param')) for n in fr) and not any(x['kind'] == 'gp' for x in cc2['insts']):
            opt = wls(cc2, base, fr)
            if opt is None:
                ctx.label('ill-posed')
                continue
            if any(n in bounded and (bounded[n] is None or not bounded[n][0] + 0.01 < opt[1][n] < bounded[n][1] - 0.01) for n in fr):
                ctx.label('bounded')
                require(ll <= opt[0] + 0.006 + 1e-6 * abs(opt[0]), "a compared model fits better than it can", got=ll, optimum=opt[0])
                continue
            close(ll, opt[0], rtol=1e-3, atol=0.011 + 1e-3, msg="likelihood listed for a linear model is not its maximum", free=fr, frozen=m)
            close(g['RMS'][0], opt[2], rtol=0.02, atol=0.05, msg="RMS listed", free=fr)
            ctx.label('optimum checked')
        else:
            cond = dict(base)
            try:
                start = conf.ref_loglike(cc2, cond)
            except (np.linalg.LinAlgError, KeyError):
                continue
            if not post.priors or all(isinstance(p, (radvel.prior.HardBounds, radvel.prior.EccentricityPrior)) for p in post.priors):
                if np.isfinite(start):
                    require(ll >= start - 0.01 - 1e-6 * abs(start), "a compared model fits worse than its starting point", got=ll, start=start, free=fr)
                    ctx.label('start checked')
    ctx.nontrivial(len(exp) > 1)
    ctx.label(*c['kinds'])


SUBCHECKS = [Sub("criteria", crit_case(), check_crit, quick=250, thorough=4000),
             Sub("linear", comp_case(), check_comp, quick=180, thorough=1500, weight=2, budget=60),
             Sub("general", comp_case(linear=False), check_comp, quick=140, thorough=1000, weight=2, budget=60),
             Sub("gp", comp_case(gp=True), check_comp, quick=100, thorough=600, weight=3, budget=60)]
