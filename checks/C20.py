"""C20: nested sampling: samples, evidence, options, output directories and resuming."""
import contextlib
import copy
import ctypes
import functools
import io
import logging
import os
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

import radvel
from radvel import nested_sampling as NS
from vlib import conf, gen, pri, rvx
from vlib.core import Sub, Violation, close, fail, require
from checks import C17

PROPERTY = "C20"
RULE = ("1-3 nested-sampling runs (no output, new, existing or foreign directory; overwritten, resumed, refused; the same option dictionaries "
        "used again) of small posteriors with known evidence, with every sampler that is installed and a stand-in for MultiNest; non-trivial: "
        "a run gave samples that were compared with the exact posterior")
ASSUMPTIONS = ["MultiNest is not installed: radvel's side of it is exercised against a stand-in with its documented interface",
               "the samplers' own statistical accuracy is taken with wide tolerances (7 sigma)"]

# ---------------------------------------------------------------- posteriors with known evidence


@st.composite
def problem(draw, minfree=1):
    n = draw(st.integers(6, 10))
    names = draw(st.lists(st.sampled_from(['j', 'a_b']), min_size=1, max_size=2, unique=True))
    insts = []
    for nm in names:
        insts.append(dict(name=nm, kind='rv', t=draw(gen.spread_times(n)), v=draw(st.lists(gen.fl(-8, 8), min_size=n, max_size=n)),
                          err=draw(st.lists(gen.fl(1, 3), min_size=n, max_size=n)), gamma=draw(gen.fl(-2, 2)), jit=draw(gen.fl(0.5, 2)), linear=False,
                          predefined=True, decorr=[]))
    basis = draw(st.sampled_from(['per tp e w k', 'per tc secosw sesinw k', 'per tc e w k', 'logper tc secosw sesinw k']))
    c = dict(basis=basis, orbits=[dict(per=draw(gen.fl(3, 30)), tp=draw(gen.fl(0, 30)), e=draw(gen.fl(0, 0.5)), w=draw(gen.fl(-3, 3)),
                                       k=draw(gen.fl(1, 10)))],
             dvdt=0.0, curv=None, time_base=50.0, custom=False, insts=insts, composite=len(insts) > 1 or draw(st.booleans()), mask=0)
    choices = ['gamma_' + nm for nm in names] + ['k1', 'dvdt']
    free = sorted(draw(st.lists(st.sampled_from(choices), min_size=minfree, max_size=2, unique=True)))
    pr = []
    for f in free:
        kind = draw(st.sampled_from(['HardBounds', 'HardBounds', 'Gaussian', 'Jeffreys'] if f == 'k1' else ['HardBounds', 'HardBounds', 'Gaussian']))
        s = 0.2 if f == 'dvdt' else 1.0
        d = dict(kind=kind, param=f)
        if kind == 'HardBounds':
            d.update(lo=-s * draw(gen.fl(3, 15)), hi=s * draw(gen.fl(3, 15)))
        elif kind == 'Gaussian':
            d.update(mu=s * draw(gen.fl(-5, 5)), sigma=s * draw(gen.fl(1, 8)))
        else:
            d.update(lo=draw(gen.fl(0.05, 0.5)), hi=draw(gen.fl(8, 40)))
        pr.append(d)
    extra = None
    e = draw(st.integers(0, 3))
    if e == 1:
        extra = dict(kind='Gaussian', param=free[0], mu=pr[0].get('lo', 0) / 2 + 1, sigma=2.0 if free[0] != 'dvdt' else 0.5)
    elif e == 2 and 'k1' in free:
        extra = dict(kind='PositiveK')
        for d in pr:
            # the samplers need a prior that leaves room above zero
            if d['param'] == 'k1' and d['kind'] == 'Gaussian':
                d['mu'] = abs(d['mu'])
    elif e == 3:
        extra = dict(kind='Gaussian', param='jit_' + names[0], mu=1.0, sigma=0.5)
    return dict(conf=c, free=free, priors=draw(st.permutations(pr)), extra=extra, extra_first=draw(st.booleans()))


def build(c):
    post, vals = conf.build(c['conf'])
    for n in post.params:
        post.params[n].vary = n in c['free']
    post.vector.dict_to_vector()
    post.list_vary_params()
    post.likelihood.list_vary_params()
    ps = [pri.make(d) for d in c['priors']]
    if c['extra']:
        if c['extra']['kind'] == 'PositiveK':
            x = radvel.prior.PositiveKPrior(1)
        else:
            x = pri.make(c['extra'])
            x.extra_constraint = True
        ps = [x] + ps if c['extra_first'] else ps + [x]
    post.priors = ps
    return post, conf.values_of(vals)


def exact(c, v0, names):
    """(ln evidence, information, means, standard deviations) of the free parameters `names`, by quadrature over the unit cube."""
    n = 1500 if len(names) == 1 else 260
    u = (np.arange(n) + 0.5) / n
    axes = []
    for f in names:
        d = [d for d in c['priors'] if d['param'] == f][0]
        if d['kind'] == 'HardBounds':
            axes.append(d['lo'] + u * (d['hi'] - d['lo']))
        elif d['kind'] == 'Gaussian':
            axes.append(d['mu'] + d['sigma'] * ndtri(u))
        else:
            axes.append(d['lo'] * (d['hi'] / d['lo']) ** u)
    grid = [g.ravel() for g in np.meshgrid(*axes, indexing='ij')]
    ll = np.zeros(grid[0].size)
    for ins in c['conf']['insts']:
        g = 'gamma_' + ins['name']
        z = dict(v0, **{f: 0.0 for f in names})
        base = conf.ref_model(c['conf'], z, ins['t']) + z[g]
        r = np.array(ins['v'])[:, None] - base[:, None]
        for f, x in zip(names, grid):
            o = dict(z, **{f: 1.0})
            r = r - (conf.ref_model(c['conf'], o, ins['t']) + o[g] - base)[:, None] * x
        var = np.array(ins['err']) ** 2 + v0['jit_' + ins['name']] ** 2
        ll += (-0.5 * r ** 2 / var[:, None] - 0.5 * np.log(2 * np.pi * var)[:, None]).sum(0)
    e = c['extra']
    if e and e['kind'] == 'PositiveK':
        if 'k1' in names:
            ll[grid[names.index('k1')] <= 0] = -np.inf
    elif e:
        x = grid[names.index(e['param'])] if e['param'] in names else v0[e['param']]
        ll = ll - 0.5 * ((x - e['mu']) / e['sigma']) ** 2 - 0.5 * np.log(2 * np.pi * e['sigma'] ** 2)
    m = ll.max()
    w = np.exp(ll - m)
    lnZ = m + np.log(w.mean())
    w /= w.sum()
    with np.errstate(all='ignore'):
        H = np.sum(np.where(w > 0, w * (ll - lnZ), 0))
    mean = [np.sum(w * x) for x in grid]
    sd = [np.sqrt(np.sum(w * (x - mu) ** 2)) for x, mu in zip(grid, mean)]
    us = [g.ravel() for g in np.meshgrid(*[u] * len(names), indexing='ij')]
    edge = max(w[(g < 0.01) | (g > 0.99)].sum() for g in us)       # the far tails of a prior are not resolved
    return lnZ, H, mean, sd, 1 / np.sum(w ** 2) if edge < 0.05 and H < 7 else 0


# ---------------------------------------------------------------- stand-in for PyMultiNest

class Recorder(object):
    calls = []


def fake_multinest():
    mod = types.ModuleType('pymultinest')

    def run(LogLikelihood, Prior, n_dims, n_params=None, outputfiles_basename='chains/1-', resume=True, n_live_points=400, seed=-1, **kw):
        require(kw.keys() <= {'evidence_tolerance', 'sampling_efficiency', 'verbose', 'max_iter', 'importance_nested_sampling', 'multimodal',
                              'const_efficiency_mode', 'n_iter_before_update', 'init_MPI'},
                "an argument MultiNest does not have", got=sorted(kw))
        Recorder.calls.append(dict(kw, n_live_points=n_live_points, resume=resume, outputfiles_basename=outputfiles_basename))
        require(os.path.isdir(os.path.dirname(outputfiles_basename) or '.'), "MultiNest is given an output directory that does not exist")
        if resume and os.path.exists(outputfiles_basename + 'live.npz'):
            return
        k = n_params or n_dims
        rng = np.random.RandomState(3)
        xs, ls = [], []
        for u in rng.rand(2500, n_dims):
            cube = (ctypes.c_double * k)(*u)
            ptr = ctypes.cast(cube, ctypes.POINTER(ctypes.c_double))
            Prior(ptr, n_dims, k)
            before = list(cube)
            lnl = LogLikelihood(ptr, n_dims, k)
            require(list(cube) == before, "the likelihood changes MultiNest's point")
            require(isinstance(float(lnl), float) and lnl == lnl, "MultiNest is given no number as a likelihood", got=lnl)
            xs.append(before)
            ls.append(float(lnl))
        np.savez(outputfiles_basename + 'live.npz', x=np.array(xs), ll=np.array(ls))

    class Analyzer(object):
        def __init__(self, n_params, outputfiles_basename='chains/1-', verbose=True):
            self.n, self.f = n_params, np.load(outputfiles_basename + 'live.npz')

        def get_equal_weighted_posterior(self):
            ll = self.f['ll']
            w = np.exp(ll - ll.max())
            i = np.random.RandomState(1).choice(len(w), size=400, p=w / w.sum())
            return np.column_stack([self.f['x'][i], ll[i]])

        def get_stats(self):
            ll = self.f['ll']
            w = np.exp(ll - ll.max())
            z = ll.max() + np.log(w.mean())
            err = max(np.std(w) / np.mean(w) / np.sqrt(len(w)), 1e-3)
            return {'global evidence': z, 'global evidence error': err, 'nested sampling global log-evidence': z,
                    'nested sampling global log-evidence error': err}

        def get_data(self):
            raise Violation("weighted samples of MultiNest are not equally weighted draws")

    mod.run, mod.Analyzer = run, Analyzer
    return mod


@contextlib.contextmanager
def environment(counter):
    """Count likelihood evaluations; a clean directory to run in; quiet samplers."""
    orig = radvel.posterior.Posterior.likelihood_ns_array

    @functools.wraps(orig)
    def counted(self, x):
        counter[0] += 1
        return orig(self, x)
    old = sys.modules.get('pymultinest')
    cwd = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    sys.modules['pymultinest'] = fake_multinest()
    radvel.posterior.Posterior.likelihood_ns_array = counted
    logging.disable(logging.CRITICAL)
    try:
        with C17.quiet(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        logging.disable(logging.NOTSET)
        radvel.posterior.Posterior.likelihood_ns_array = orig
        os.chdir(cwd)
        if old is None:
            del sys.modules['pymultinest']
        else:
            sys.modules['pymultinest'] = old


# ---------------------------------------------------------------- histories

def options(name, k):
    """Option dictionaries for a sampler (fresh objects)."""
    if name == 'dynesty-static':
        return dict(nlive=50 + 5 * k, bound='single' if k % 2 else 'multi', sample='unif'), dict(dlogz=1.0, print_progress=False)
    if name == 'dynesty-dynamic':
        return dict(bound='single' if k % 2 else 'multi', sample='unif'), dict(nlive_init=50 + 5 * k, maxbatch=0, dlogz_init=0.5, print_progress=False)
    if name == 'ultranest':
        return dict(ndraw_min=64 + k), dict(min_num_live_points=50 + k, frac_remain=0.2, min_ess=50, dlogz=2.0, show_status=False, viz_callback=False,
                                   max_num_improvement_loops=0)
    if name == 'nautilus':
        return dict(n_live=60 + k, n_networks=0), dict(n_eff=150, verbose=False, f_live=0.2)
    return None, dict(n_live_points=100 + k, evidence_tolerance=0.5 + k)


FORBIDDEN = {'dynesty-static': [('run', 'resume', True), ('run', 'checkpoint_file', 'x.save')],
             'dynesty-dynamic': [('run', 'resume', False), ('run', 'checkpoint_file', 'x.save')],
             'ultranest': [('sampler', 'log_dir', 'x'), ('sampler', 'resume', True)],
             'nautilus': [('sampler', 'filepath', 'x.hdf5'), ('sampler', 'resume', False)],
             'multinest': [('run', 'outputfiles_basename', 'x'), ('run', 'resume', True), ('sampler', 'n_live', 100)]}


@st.composite
def history(draw, name):
    steps = []
    for i in range(draw(st.integers(1, 3))):
        steps.append(dict(out=draw(st.sampled_from([None, 'A', 'A', 'A', 'B/C'])), how=draw(st.sampled_from(['plain', 'plain', 'overwrite', 'proceed'])),
                          problem=draw(st.integers(0, 1)), bad=draw(st.sampled_from([None] * 8 + ['forbidden', 'noprior', 'twopriors', 'fixed'])),
                          which=draw(st.integers(0, 2))))
    return dict(sampler=name, spelled=draw(st.sampled_from([name, name.title()] + (['pymultinest'] if name == 'multinest' else []))), steps=steps,
                problems=[draw(problem(minfree=2 if name == 'nautilus' else 1)) for _ in range(2)], k=draw(st.integers(0, 9)), predir=draw(st.sampled_from([None, None, 'A', 'tmpdir'])),
                kwnone=draw(st.booleans()))


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = (os.path.getsize(p), open(p, 'rb').read())
    return out


def check(c, ctx):
    sk, rk = options(c['sampler'], c['k'])
    sk0, rk0 = copy.deepcopy(sk), copy.deepcopy(rk)
    counter = [0]
    done = {}            # output directory -> (problem index, evaluations of the fresh run)
    with environment(counter) as d:
        np.random.seed(c['k'])
        if c['predir']:                                # a directory of the user's that exists already
            os.makedirs(c['predir'])
            with open(os.path.join(c['predir'], 'mine.txt'), 'w') as fh:
                fh.write('keep')
        for s in c['steps']:
            pc = c['problems'][s['problem']]
            if s['how'] == 'proceed' and s['out'] in done:
                pc = c['problems'][done[s['out']][0]]  # resuming is resuming the same problem
            post, v0 = build(pc)
            names = post.name_vary_params()
            require(sorted(names) == pc['free'], "free parameters of the harness")
            kw = dict(sampler=c['spelled'], sampler_kwargs=sk, run_kwargs=rk)
            if s['out']:
                kw['output_dir'] = os.path.join(d, s['out'])
            if s['how'] != 'plain':
                kw[s['how']] = True
            exists = s['out'] in done
            refuse = None
            if s['bad'] == 'noprior':
                post.priors = [p for p in post.priors if p.extra_constraint] + [p for p in post.priors if not p.extra_constraint][1:]
                refuse = ValueError
            elif s['bad'] == 'twopriors':
                post.priors.append(radvel.prior.HardBounds(names[-1], -1.0, 1.0))
                refuse = ValueError
            elif s['bad'] == 'fixed':
                post.priors.append(radvel.prior.Gaussian('e1' if 'e1' in post.params else 'sesinw1', 0.1, 1.0))
                refuse = ValueError
            elif s['bad'] == 'forbidden':
                where, key, val = FORBIDDEN[c['sampler']][s['which'] % len(FORBIDDEN[c['sampler']])]
                kw[where + '_kwargs'] = dict(kw[where + '_kwargs'] or {}, **{key: val})
                refuse = (ValueError, TypeError)
            if refuse is None and exists and s['how'] == 'plain':
                refuse = FileExistsError
            flags = [(k, p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()]
            pstate = [{k: repr(v) for k, v in vars(p).items()} for p in post.priors]
            start = {k: float(p.value) for k, p in post.params.items()}
            files = tree(d)
            n0 = counter[0]
            Recorder.calls.clear()
            handed = {k: copy.deepcopy(kw[k]) for k in ('sampler_kwargs', 'run_kwargs')}
            if refuse is not None:
                try:
                    NS.run(post, **kw)
                except ((refuse if isinstance(refuse, tuple) else (refuse,)) + (FileExistsError,)):
                    pass
                else:
                    fail("a run that must be refused was done", step=s, sampler=c['sampler'], exists=exists)
                require(counter[0] == n0, "a refused run was sampled first", step=s)
                if s['out'] and exists:
                    r = os.path.join(s['out'], 'results.hdf5')
                    require(tree(d)[r] == files[r], "a refused run changed the results", step=s)
                require(all(handed[k] == kw[k] for k in handed), "the options given were modified", step=s, now=kw, was=handed)
                ctx.label('refused ' + str(s['bad'] or 'existing'))
                continue
            try:
                res = NS.run(post, **kw)
            except FileExistsError:
                # MultiNest is not given a directory that holds other things, unless asked
                if c['sampler'] == 'multinest' and s['how'] == 'plain' and s['out'] and os.path.isdir(kw['output_dir']):
                    require(tree(d) == files and counter[0] == n0, "a refused run did something")
                    continue
                raise
            evals = counter[0] - n0
            # ---- the caller's things
            require(sk == sk0 and rk == rk0, "the options given were modified", sampler_kwargs=sk, run_kwargs=rk)
            require([(k, p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()] == flags, "sampling changed flags")
            require([{k: repr(v) for k, v in vars(p).items()} for p in post.priors] == pstate, "sampling changed the priors")
            for k, p in post.params.items():
                require(float(p.value) == start[k] == post.vector.vector[post.vector.indices[k]][0], "sampling moved the posterior", name=k,
                        was=start[k], now=float(p.value), vector=post.vector.vector[post.vector.indices[k]][0])
            if c['predir'] and s['out'] != c['predir']:
                require(os.path.exists(os.path.join(c['predir'], 'mine.txt')), "a directory the run was not given was deleted", dir=c['predir'])
            if not s['out']:
                require(set(tree(d)) == set(files), "a run without output leaves files", new=sorted(set(tree(d)) - set(files)))
            # ---- options reached the sampler
            if c['sampler'] == 'multinest':
                require(len(Recorder.calls) == 1 and all(Recorder.calls[0].get(k) == v for k, v in rk0.items()), "options did not reach MultiNest",
                        got=Recorder.calls, want=rk0)
                require(bool(Recorder.calls[0]['resume']) == (s['how'] == 'proceed'), "MultiNest resumes only when asked", got=Recorder.calls)
            # ---- samples
            df = res['samples']
            require(list(df.columns) == names + ['lnprobability'], "columns of the samples", got=list(df.columns), want=names)
            require(len(df) >= 20, "samples", n=len(df))
            x = df[names].to_numpy()
            fresh, _ = build(pc)
            for i in np.unique(np.linspace(0, len(df) - 1, 40).astype(int)):
                fresh.set_vary_params(x[i])
                want = fresh.logprob()
                close(df['lnprobability'].to_numpy()[i], want, rtol=1e-9, atol=1e-8, msg="a sample's lnprobability is not that of its values", row=int(i))
                require(np.isfinite(want), "a sample that the priors forbid", row=dict(zip(names, x[i])))
            smp = res.get('sampler')                                     # MultiNest has none
            if smp is None:
                own = res['lnZ'], res['lnZerr']
            elif hasattr(smp, 'n_eff'):                                    # nautilus
                own = smp.log_z, smp.n_eff ** -0.5
            else:
                own = np.ravel(smp.results['logz'])[-1], np.ravel(smp.results['logzerr'])[-1]
            close([res['lnZ'], res['lnZerr']], own, rtol=1e-12, msg="evidence and error are not those of the sampler", sampler=type(smp).__name__)
            lnZ, H, mean, sd, ess = exact(pc, v0, names)
            if ess > 40:
                tol = max(1.5, 7 * np.sqrt(max(H, 0.5) / 50))
                require(abs(res['lnZ'] - lnZ) < tol, "the evidence is not that of the posterior", got=res['lnZ'], want=lnZ, tolerance=tol, problem=pc)
                require(0 < res['lnZerr'] < 3, "the error of the evidence", got=res['lnZerr'])
                for j, n in enumerate(names):
                    require(abs(x[:, j].mean() - mean[j]) < 1.2 * sd[j], "the samples are not draws of the posterior (mean)", name=n,
                            got=x[:, j].mean(), want=mean[j], sd=sd[j])
                    require(0.35 * sd[j] < x[:, j].std() < 2.5 * sd[j], "the samples are not draws of the posterior (spread)", name=n,
                            got=x[:, j].std(), want=sd[j])
                ctx.nontrivial(True)
            # ---- stored results
            if s['out']:
                f = os.path.join(d, s['out'], 'results.hdf5')
                require(os.path.exists(f), "no results file")
                back = NS.load_results(f)
                require(back['lnZ'] == res['lnZ'] and back['lnZerr'] == res['lnZerr'], "loaded evidence", got=(back['lnZ'], back['lnZerr']),
                        want=(res['lnZ'], res['lnZerr']))
                require(list(back['samples'].columns) == list(df.columns) and np.array_equal(back['samples'].to_numpy(), df.to_numpy()),
                        "loaded samples are not those returned")
                if c['predir'] == s['out']:
                    require(os.path.exists(os.path.join(c['predir'], 'mine.txt')), "the output directory's other files were deleted")
                if exists and s['how'] == 'proceed':
                    require(evals < 0.6 * done[s['out']][1] + 20, "the run was started again instead of resumed", evaluations=evals,
                            first=done[s['out']][1])
                    ctx.label('resumed')
                else:
                    if exists:
                        require(evals > 100, "the run was resumed instead of overwritten", evaluations=evals)
                        ctx.label('overwritten')
                    done[s['out']] = (s['problem'], evals)
            ctx.label(c['sampler'], s['how'])


def unknown(c, ctx):
    """Samplers that do not exist are refused."""
    pc = c['problem']
    post, _ = build(pc)
    try:
        with C17.quiet():
            NS.run(post, sampler=c['name'])
    except ValueError:
        ctx.nontrivial(True)
    else:
        fail("an unknown sampler was accepted", name=c['name'])


# ---------------------------------------------------------------- what is asked of the samplers, without sampling

class Halt(Exception):
    pass


@contextlib.contextmanager
def halted(seen, at):
    """Every sampler stops with Halt as soon as it is constructed (at='sampler') or started (at='run'); `seen` gets its keyword arguments."""
    import dynesty
    import dynesty.sampler
    import nautilus
    import ultranest

    def recording(orig, what):
        def wrapped(*a, **kw):
            if not seen.get(what):
                seen[what] = dict(kw)
            if what == at:
                raise Halt()
            return orig(*a, **kw)
        return wrapped
    todo = [(dynesty.NestedSampler, '__new__', 'sampler'), (dynesty.DynamicNestedSampler, '__init__', 'sampler'),
            (ultranest.ReactiveNestedSampler, '__init__', 'sampler'), (ultranest.ReactiveNestedSampler, 'run', 'run'),
            (nautilus.Sampler, '__init__', 'sampler'), (nautilus.Sampler, 'run', 'run')]
    for k in {k for x in (dynesty.NestedSampler, dynesty.DynamicNestedSampler) for k in x.__mro__ if 'run_nested' in vars(k)}:
        todo.append((k, 'run_nested', 'run'))
    old = [(k, m, vars(k)[m]) for k, m, _ in todo]
    for k, m, what in todo:
        setattr(k, m, recording(getattr(k, m), what))
    try:
        yield
    finally:
        for k, m, f in old:
            setattr(k, m, f)


WORD = st.sampled_from(['alpha', 'n_thing', 'verbose', 'seed', 'print_progress', 'show_status', 'max_ncalls', 'maxiter', 'n_eff', 'min_ess', 'dlogz', 'n_live',
                        'discard_exploration', 'Lepsilon'])
VALUE = st.one_of(st.booleans(), st.none(), st.integers(-5, 5), gen.fl(-3, 3), st.sampled_from(['', 'auto', '0']), st.lists(st.integers(0, 3), max_size=2))
ASK = st.fixed_dictionaries(dict(problem=problem(minfree=2), sampler=st.sampled_from(['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus']),
                                 title=st.booleans(), at=st.sampled_from(['sampler', 'run', 'run']), options=st.one_of(st.dictionaries(WORD, VALUE, max_size=4),
                                                  st.dictionaries(st.sampled_from(['verbose', 'print_progress', 'show_status', 'n_eff']), st.booleans(), min_size=1)),
                                 out=st.sampled_from([None, 'A', 'A', 'B/C']), how=st.sampled_from(['plain', 'overwrite', 'proceed', 'both']),
                                 existing=st.booleans(), k=st.integers(0, 9)))


def asked(c, ctx):
    """Existing results are refused before anything is sampled; otherwise exactly the caller's options reach the sampler."""
    post, _ = build(c['problem'])
    start = {k: float(p.value) for k, p in post.params.items()}
    sk, rk = options(c['sampler'], c['k'])
    if c['at'] == 'sampler':
        sk = dict(c['options'])
    else:
        rk = dict(c['options'])
    keep = copy.deepcopy((sk, rk))
    counter = [0]
    seen = {}
    with environment(counter) as d:
        kw = dict(sampler=c['sampler'].title() if c['title'] else c['sampler'], sampler_kwargs=sk, run_kwargs=rk)
        if c['out']:
            kw['output_dir'] = os.path.join(d, c['out'])
        if c['how'] in ('overwrite', 'both'):
            kw['overwrite'] = True
        if c['how'] in ('proceed', 'both'):
            kw['proceed'] = True
        if c['existing'] and c['out']:
            os.makedirs(kw['output_dir'])
            with open(os.path.join(kw['output_dir'], 'results.hdf5'), 'wb') as f:
                f.write(b'earlier results')
        files = tree(d)
        with halted(seen, c['at']):
            try:
                NS.run(post, **kw)
            except Halt:
                outcome = 'started'
            except FileExistsError:
                outcome = 'refused'
            else:
                fail("no sampler was started", **kw)
        refuse = bool(c['existing'] and c['out'] and c['how'] == 'plain')
        require((outcome == 'refused') == refuse, "existing results are refused exactly if neither overwriting nor resuming was asked", outcome=outcome, how=c['how'],
                existing=c['existing'], sampler=c['sampler'])
        require((sk, rk) == keep, "the options given were modified", now=(sk, rk), was=keep)
        if refuse:
            require(tree(d) == files and not seen, "a refused run did something")
        else:
            given = keep[0] if c['at'] == 'sampler' else keep[1]
            got = seen[c['at']]
            require(all(k in got and type(got[k]) is type(v) and got[k] == v for k, v in given.items()), "an option did not reach the sampler as given",
                    options=given, received={k: repr(v) for k, v in got.items() if k in given})
            opts = dict(seen.get('sampler', {}), **(seen.get('run', {})))
            pro = c['how'] in ('proceed', 'both')
            if c['sampler'] in ('ultranest', 'nautilus'):
                r = seen['sampler'].get('resume')
                require((r in (True, 'resume', 'resume-similar')) == pro, "resuming was asked, or not", given=pro, resume=r)
                place = seen['sampler'].get('log_dir' if c['sampler'] == 'ultranest' else 'filepath')
                require((place is None) == (c['out'] is None), "output of the sampler", place=str(place))
            else:
                require(not opts.get('resume'), "dynesty has nothing to resume from", resume=opts.get('resume'))
                if c['at'] == 'run':
                    place = opts.get('checkpoint_file')
                    require((place is None) == (c['out'] is None), "output of the sampler", place=str(place))
                else:
                    place = None
            if place is not None:
                require(os.path.abspath(str(place)).startswith(kw['output_dir']), "the sampler writes elsewhere", place=str(place))
            if not c['out']:
                require(set(tree(d)) == set(files), "files without an output directory")
        if refuse or c['at'] == 'sampler':
            for k, p in post.params.items():
                require(float(p.value) == start[k], "the posterior was moved", name=k)
    ctx.nontrivial(refuse or bool(c['options']))
    ctx.label(c['sampler'], outcome)


SUBCHECKS = [Sub('asked', ASK, asked, quick=150, thorough=3000, budget=25)]
SUBCHECKS += [Sub(n.replace('-', '_'), history(n), check, quick=40, thorough=1500, weight=w, budget=28)
             for n, w in [('dynesty-static', 4), ('dynesty-dynamic', 4), ('ultranest', 5), ('nautilus', 4)]]
SUBCHECKS += [Sub('multinest', history('multinest'), check, quick=60, thorough=1500, weight=3, budget=20),
              Sub('unknown', st.fixed_dictionaries(dict(problem=problem(), name=st.sampled_from(['emcee', 'dynesty', 'nest', '']))), unknown,
                  quick=30, thorough=100)]
