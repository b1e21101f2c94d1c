"""C17: a fit never worsens the posterior and moves only free parameters."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, pri, rvx
from vlib.core import Sub, close, fail, require
from checks.C14 import _value

PROPERTY = "C17"
RULE = ("a model with 1-3 instruments and priors (a positive range for the free parameters that need one), fitted once or twice from "
        "a displaced starting point by one of five methods; non-trivial: the fit moved at least one parameter")
METHODS = ['Powell', 'Powell', 'Powell', 'Nelder-Mead', 'BFGS', 'L-BFGS-B', 'CG']


@st.composite
def case(draw, kernels, kinds=('rv', 'decorr', 'gp'), maxfree=6):
    c = draw(conf.config(max_planets=2, max_inst=3, nmin=3, nmax=8, kernels=kernels, emax=0.7, kinds=kinds))
    c['mask'] &= draw(st.integers(1, 2 ** 24 - 1))
    vals = conf.initial_values(c)
    names = sorted(n for n in vals if not vals[n][3])
    pr = []
    for n in draw(st.lists(st.sampled_from(names), max_size=3)):
        pr.append(draw(pri.spec(n, vals[n][0], ['Gaussian', 'Gaussian', 'Gaussian', 'HardBounds', 'Jeffreys'])))
    return dict(conf=c, priors=pr, cons=draw(st.lists(pri.constraint(c['basis'], len(c['orbits'])), max_size=1)),
                start=draw(st.lists(gen.fl(0.85, 1.15), min_size=10, max_size=10)),
                methods=draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=2)),
                maxfree=draw(st.integers(1, maxfree)), verbose=draw(st.booleans()), uparams=False)


def quiet():
    st_ = contextlib.ExitStack()
    st_.enter_context(warnings.catch_warnings())
    warnings.simplefilter('ignore')
    st_.enter_context(np.errstate(all='ignore'))
    return st_


def needs_range(n):
    return n.startswith(('gp_', 'per', 'jit')) or n.startswith('logper') or n.startswith('logk')


def prepare(c):
    """Posterior with at most maxfree free parameters, ranges for those that need them, moved to its starting point."""
    post, vals = conf.build(c['conf'])
    free = post.name_vary_params()
    for n in free[c['maxfree']:]:
        post.params[n].vary = False
        vals[n][1] = False
    post.vector.dict_to_vector()
    post.list_vary_params()
    post.likelihood.list_vary_params()
    free = free[:c['maxfree']]
    cur = conf.values_of(vals)
    for i, n in enumerate(free):
        cur[n] = float(_value(n, cur[n], c['start'][i % 10]))
    for d in c['priors']:
        post.priors.append(pri.make(d))
    for n in free:
        if needs_range(n):
            w = 0.5 * abs(cur[n]) + (1.0 if n.startswith('log') else 0.01)
            lo = cur[n] - w
            if not n.startswith(('log',)):
                lo = max(lo, 0.3 * cur[n])
            post.priors.append(radvel.prior.HardBounds(n, lo, cur[n] + w))
    for d in c['cons']:
        post.priors.append(pri.make_constraint(d))
    post.set_vary_params([cur[n] for n in free])
    return post, vals, cur, free


def orbits(cc, v):
    return [rvx.decode(cc['basis'], {p: v['%s%d' % (p, i + 1)] for p in cc['basis'].split()}) for i in range(len(cc['orbits']))]


def check(c, ctx):
    post, vals, cur, free = prepare(c)
    cc = c['conf']
    require(post.name_vary_params() == free, "free parameters of the prepared posterior")
    lin = {'gamma_' + i['name'] for i in cc['insts'] if i['linear']}
    with quiet():
        before = post.logprob()
        if not np.isfinite(before):
            ctx.label('start forbidden')
        prior_state = [{k: repr(v) for k, v in vars(p).items()} for p in post.priors]
        data = [np.array(getattr(x, k)) for x in getattr(post.likelihood, 'like_list', [post.likelihood]) for k in ('x', 'y', 'yerr')]
        flags = [(k, p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()]
        moved = False
        for m in c['methods']:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                new = radvel.fitting.maxlike_fitting(post, verbose=c['verbose'], method=m)
            x = np.array(new.get_vary_params())
            row = new.vector.vector[:, 0].copy()
            named = {k: float(p.value) for k, p in new.params.items()}
            after = new.logprob()
            require(not np.isfinite(before) or (np.isfinite(after) and after >= before - 1e-9 * (1 + abs(before))),
                    "the fit made the posterior worse", before=before, after=after, method=m)
            require(new.name_vary_params() == free, "the fit changed which parameters are free")
            require([(k, p.vary, p.mcmcscale, p.linear) for k, p in new.params.items()] == flags, "the fit changed flags or scales")
            for n in cur:
                v = named[n]
                require(v == row[new.vector.indices[n]] or (v != v), "named parameters and vector differ after the fit", name=n,
                        named=v, vector=row[new.vector.indices[n]], method=m)
                if n not in free and n not in lin:
                    require(v == cur[n], "the fit moved a fixed parameter", name=n, was=cur[n], now=v, method=m)
                if n in free and v != cur[n]:
                    moved = True
            require(np.array_equal(new.vector.vector[:, 0], row, equal_nan=True), "evaluating the fitted posterior moves it: the result was stale", method=m)
            require(x.tolist() == [named[n] for n in free], "the free parameters are not those of the result")
            close(new.logprob_array(x), after, rtol=1e-12, atol=1e-12, msg="log-probability as a function and after the fit")
            v = dict(cur)
            v.update({n: named[n] for n in free})
            if np.isfinite(after) and all(0 <= o['e'] <= 0.99 for o in orbits(cc, v)):
                ll = conf.ref_loglike(cc, v)
                lp = sum(p(new.params, new.vector) for p in new.priors)
                close(after, ll + lp, rtol=0, atol=conf.ll_tol(cc, v) + 1e-9 * (1 + abs(lp)), msg="log-probability of the result")
                for ins in cc['insts']:
                    if ins['linear']:
                        r = conf.ref_instrument(cc, ins, v)
                        close(named['gamma_' + ins['name']], r['gamma'], rtol=1e-7, atol=1e-7 * (1 + float(np.abs(r['resid']).max())),
                              msg="the linear offset after the fit is not that of the result")
            if c['verbose']:
                text = out.getvalue()
                final = [s for s in text.splitlines() if s.startswith('Final loglikelihood')]
                require(len(final) == 1, "the fit does not announce its result")
                close(float(final[0].split('=')[1]), after, rtol=1e-9, atol=2e-6, msg="announced log-probability")
                for n in cur:
                    ln = [s.split() for s in text.splitlines() if s.split()[:1] == [n]]
                    require(len(ln) >= 1, "a parameter is missing from the printed result", name=n)
                    require(any(np.isclose(float(s[1]), named[n], rtol=1e-4, atol=1e-9) for s in ln), "the printed value is not the result", name=n,
                            printed=ln, value=named[n])
            require([{k: repr(v) for k, v in vars(p).items()} for p in new.priors] == prior_state, "the fit changed the priors")
            now = [np.array(getattr(y, k)) for y in getattr(new.likelihood, 'like_list', [new.likelihood]) for k in ('x', 'y', 'yerr')]
            require(all(np.array_equal(a, b) for a, b in zip(data, now)), "the fit changed the data")
            before, post = after, new
            cur.update({n: named[n] for n in free})
    ctx.nontrivial(moved)
    ctx.label(*c['methods'])
    ctx.label('moved' if moved else 'not moved')


# ------------------------------------------------------------------ linear problems have one optimum

@st.composite
def linear(draw):
    n = draw(st.integers(8, 20))
    names = draw(st.lists(st.sampled_from(['h', 'a_b', 'j2']), min_size=1, max_size=2, unique=True))
    insts = []
    for nm in names:
        insts.append(dict(name=nm, kind='rv', t=draw(gen.spread_times(n)), v=draw(st.lists(gen.fl(-30, 30), min_size=n, max_size=n)),
                          err=draw(st.lists(gen.fl(0.5, 3), min_size=n, max_size=n)), gamma=0.0, jit=draw(gen.fl(0.1, 2)), linear=False,
                          predefined=True, decorr=[]))
    npl = draw(st.integers(1, 2))
    c = dict(basis='per tp e w k', orbits=[dict(per=draw(gen.fl(3, 30)), tp=draw(gen.fl(0, 30)), e=draw(gen.fl(0, 0.5)), w=draw(gen.fl(-3, 3)),
                                             k=1.0) for _ in range(npl)],
             dvdt=0.0, curv=None, time_base=50.0, custom=False, insts=insts, composite=True, mask=0)
    return dict(conf=c, trend=draw(st.booleans()), kfree=draw(st.integers(0, npl)), scale=draw(gen.fl(0.2, 5)),
                prior=draw(st.one_of(st.none(), st.tuples(gen.fl(-5, 5), gen.fl(0.5, 5)))),
                method=draw(st.sampled_from(['Powell', 'Powell', 'BFGS'])))


def check_linear(c, ctx):
    cc = c['conf']
    post, vals = conf.build(cc)
    free = ['k%d' % (i + 1) for i in range(c['kfree'])] + ['gamma_' + i['name'] for i in cc['insts']] + (['dvdt'] if c['trend'] else [])
    for n in post.params:
        post.params[n].vary = n in free
    post.vector.dict_to_vector()
    post.list_vary_params()
    post.likelihood.list_vary_params()
    v0 = conf.values_of(vals)
    if c['prior']:
        post.priors.append(radvel.prior.Gaussian(free[0], *c['prior']))
    # design matrix of the reference model
    zero = dict(v0, **{n: 0.0 for n in free})
    rows, y, w = [], [], []
    for ins in cc['insts']:
        base = conf.ref_model(cc, zero, ins['t']) + zero['gamma_' + ins['name']]
        cols = []
        for n in free:
            one = dict(zero, **{n: 1.0})
            cols.append(conf.ref_model(cc, one, ins['t']) + one['gamma_' + ins['name']] - base)
        rows.append(np.array(cols).T)
        y.append(np.array(ins['v']) - base)
        w.append(1 / (np.array(ins['err']) ** 2 + v0['jit_' + ins['name']] ** 2))
    A, y, w = np.vstack(rows), np.concatenate(y), np.concatenate(w)
    H = A.T @ (A * w[:, None])
    g = A.T @ (w * y)
    if c['prior']:
        H[0, 0] += 1 / c['prior'][1] ** 2
        g[0] += c['prior'][0] / c['prior'][1] ** 2
    s = np.sqrt(np.diag(H))
    if np.linalg.cond(H / np.outer(s, s)) > 12:      # a well-posed problem
        ctx.label('ill-posed')
        return
    best = dict(zero, **dict(zip(free, np.linalg.solve(H, g))))
    want = conf.ref_loglike(cc, best)
    if c['prior']:
        want += pri.logpdf(dict(kind='Gaussian', param=free[0], mu=c['prior'][0], sigma=c['prior'][1]), best[free[0]])
    start = [best[n] + c['scale'] * (1 if i % 2 else -1) for i, n in enumerate(free)]
    post.set_vary_params(start)
    with quiet(), contextlib.redirect_stdout(io.StringIO()):
        new = radvel.fitting.maxlike_fitting(post, verbose=False, method=c['method'])
    got = new.logprob()
    require(got <= want + 1e-6 * (1 + abs(want)), "a fit better than the optimum", got=got, optimum=want)
    tol = 1e-3 * (1 + abs(want))
    require(got >= want - tol, "the fit of a linear problem is not at its optimum", got=got, optimum=want,
            method=c['method'], free=free)
    ctx.nontrivial(True)
    ctx.label(c['method'])


# ------------------------------------------------------------------ several planets, close to the optimum

NEAR = st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 31), npl=st.sampled_from([1, 2, 2, 3, 3]), sigmas=gen.fl(3.0, 5.0),
                                  basis=st.sampled_from(['per tc secosw sesinw k', 'per tc secosw sesinw logk', 'per tp e w k'])))


def check_near(c, ctx):
    """Noiseless data of one to three eccentric planets; the fit starts a few standard deviations away from the truth, where the
    posterior is close to a paraboloid, and has to arrive at the truth, which is the maximum."""
    r = np.random.RandomState(c['seed'] % 2 ** 32)
    n = 60
    params = radvel.Parameters(c['npl'], basis=c['basis'])
    for i, (lo, hi) in enumerate([(6.0, 8.0), (17.0, 21.0), (3.7, 4.3)][:c['npl']]):
        o = dict(per=r.uniform(lo, hi), tp=r.uniform(0, 5), e=r.uniform(0.05, 0.4), w=r.uniform(-3, 3), k=r.uniform(5, 15))
        for k, v in rvx.encode(c['basis'], o).items():
            params['%s%d' % (k, i + 1)] = radvel.Parameter(value=float(v))
    params['dvdt'] = radvel.Parameter(value=0.01 * r.randn())
    params['curv'] = radvel.Parameter(value=0.0, vary=False)
    params['gamma_j'] = radvel.Parameter(value=r.uniform(-5, 5))
    params['jit_j'] = radvel.Parameter(value=0.1, vary=False)
    t = np.sort(r.uniform(0, 60, n))
    mod = radvel.RVModel(params, time_base=30.0)
    like = radvel.likelihood.RVLikelihood(mod, t, mod(t) + params['gamma_j'].value, np.ones(n), suffix='_j')
    post = radvel.posterior.Posterior(like)
    x0 = np.array(post.get_vary_params(), dtype=float)
    jac = []
    for j in range(len(x0)):
        h = 1e-5 * (1 + abs(x0[j]))
        d = np.zeros(len(x0))
        d[j] = h
        like.set_vary_params(x0 + d)
        a = like.residuals()
        like.set_vary_params(x0 - d)
        jac.append((like.residuals() - a) / (2 * h))
    jac = np.array(jac)
    F = jac @ jac.T / 1.01
    s = np.sqrt(np.diag(F))
    cond = np.linalg.cond(F / np.outer(s, s))
    d = np.linalg.cholesky(np.linalg.inv(F)) @ r.randn(len(x0)) if cond < 200 else np.zeros(len(x0))
    norm = np.sqrt(d @ F @ d)
    like.set_vary_params(x0)
    best = post.logprob()
    start = -np.inf
    if norm > 0:
        post.set_vary_params(x0 + d * c['sigmas'] / norm)
        start = post.logprob()
    if not best - start < 20:
        ctx.label('ill-posed')
        return
    with quiet(), contextlib.redirect_stdout(io.StringIO()):
        new = radvel.fitting.maxlike_fitting(post, verbose=False)
    lost = best - new.logprob()
    require(lost > -1e-6 * (1 + abs(best)), "a fit better than the optimum", lost=lost)
    require(lost < 0.6, "a fit that started close to the optimum of noiseless data did not arrive there", lost=lost, lost_at_start=best - start,
            free=len(x0))
    ctx.nontrivial(True)
    ctx.label('planets=%d' % c['npl'])


SUBCHECKS = [Sub("fit", case(('QuasiPer', 'SqExp', 'Per')), check, quick=250, thorough=2500, weight=3, budget=60),
             Sub("fit_rv", case((), kinds=('rv', 'decorr'), maxfree=8), check, quick=300, thorough=3000, weight=3, budget=60),
             Sub("fit_celerite", case(('Celerite',)), check, quick=250, thorough=2500, weight=3, budget=60),
             Sub("linear", linear(), check_linear, quick=300, thorough=1500, weight=2, budget=60),
             Sub("near", NEAR, check_near, quick=60, thorough=600, weight=2, budget=60)]
