"""C21: the status file of a run."""
import contextlib
import io
import os
import string
import sys
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import radvel
from radvel import driver
from vlib import gen, setup_gen
from vlib.core import Sub, close, fail, require
from checks import C17

PROPERTY = "C21"
RULE = ("histories of status updates of one or two runs, and of real pipeline steps (fit, mcmc, ns, derive, ic_compare, tables) in any order with "
        "repetitions and reloads; non-trivial: a section was written twice, or at least two steps were done")

# ------------------------------------------------------------------ updates

KEY = st.one_of(st.sampled_from(['run', 'postfile', 'chainfile', 'minTz', 'maxGR', 'nburn', 'ic', 'rv_plot', 'params_tex', 'n_live', 'dlogz']),
                st.text(string.ascii_letters + string.digits + '_', min_size=1, max_size=8))
WORD = st.text(string.ascii_letters + string.digits + '/_-.=:#;%[]{}()\'",$ ', max_size=30).map(str.strip)
VALUE = st.one_of(st.booleans(), st.integers(-10 ** 9, 10 ** 9), st.floats(allow_nan=True), WORD,
                  st.lists(st.dictionaries(st.sampled_from(['AICc', 'BIC', 'Free Params']), st.floats(allow_nan=False), max_size=3), max_size=3))


@st.composite
def updates(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        ops.append(dict(run=draw(st.integers(0, 1)), section=draw(st.sampled_from(['fit', 'mcmc', 'ns', 'derive', 'ic_compare', 'plot', 'table'])),
                        entries=draw(st.dictionaries(KEY, VALUE, max_size=5)), dir=draw(st.booleans())))
    return dict(ops=ops, names=draw(st.sampled_from([['a_radvel.stat', 'ab_radvel.stat'], ['x_radvel.stat', 'y_radvel.stat']])))


def check_updates(c, ctx):
    d = tempfile.mkdtemp()
    model = [{}, {}]
    twice = False
    for o in c['ops']:
        f = os.path.join(d, c['names'][o['run']])
        m = model[o['run']]
        entries = dict(o['entries'])
        low = {}
        for k in entries:
            low.setdefault(k.lower(), []).append(k)
        entries = {v[-1]: entries[v[-1]] for v in low.values()}       # entries are told apart without case
        keep = dict(entries)
        driver.save_status(f, o['section'], entries)
        require(entries == keep or any(v != v for v in keep.values()), "the entries given were modified")
        twice |= o['section'] in m
        m.setdefault(o['section'], {}).update({k.lower(): str(v) for k, v in entries.items()})
        for i in (0, 1):
            f = os.path.join(d, c['names'][i])
            got = driver.load_status(f)
            got = {s: dict(got.items(s)) for s in got.sections()}
            require(got == model[i], "the status is not what was recorded", run=i, got=got, want=model[i])
    st_ = driver.load_status(os.path.join(d, c['names'][0]))
    for s, e in model[0].items():
        for k, v in e.items():
            require(st_.get(s, k) == v and st_.has_option(s, k), "an entry cannot be read back", section=s, key=k)
            if v in ('True', 'False'):
                require(st_.getboolean(s, k) == (v == 'True'), "a flag is read back wrong", section=s, key=k)
    ctx.nontrivial(twice)


# ------------------------------------------------------------------ pipeline

class Args(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def args(step, setup, out, o):
    a = dict(setupfn=setup, outputdir=out, decorr=False)
    if step == 'mcmc':
        a.update(nsteps=o['n'] * 4, nwalkers=2, ensembles=o['ens'], maxGR=1.001, burnGR=1.5, burnAfactor=25, minAfactor=40, maxArchange=.03, minTz=10 ** 6,
                 minsteps=1000, minpercent=5, thin=o['thin'], serial=True, save=False, proceed=False, headless=True)
    elif step == 'ns':
        a.update(sampler='dynesty-static', proceed=False, overwrite=True, sampler_kwargs='nlive=%d sample=unif bound=single' % (40 + o['n']),
                 run_kwargs='dlogz=1.5 print_progress=False maxcall=4000')
    elif step == 'derive':
        a.update(sampler=o['sampler'])
    elif step == 'ic_compare':
        a.update(type=o['ic'], mixed=o['mixed'], simple=False, verbose=False, fixjitter=o['fixjitter'])
    elif step == 'tables':
        a.update(type=[o['table']], header=False, name_in_title=False, sampler=o['sampler'])
    return Args(**a)


@st.composite
def pipeline(draw):
    steps = []
    pre = draw(st.sampled_from([[], ['fit'], ['fit', 'mcmc'], ['fit', 'mcmc', 'derive'], ['ns'], ['ns', 'fit', 'mcmc'], ['fit', 'ic_compare', 'ns'], ['ns', 'derive']]))
    for k in range(len(pre) + draw(st.integers(1, 6))):
        steps.append(dict(step=pre[k] if k < len(pre) else
                          draw(st.sampled_from(['fit', 'fit', 'mcmc', 'ns', 'derive', 'derive', 'ic_compare', 'ic_compare', 'tables', 'tables', 'tables'])),
                          n=draw(st.integers(3, 12)), ens=draw(st.integers(1, 2)), thin=draw(st.sampled_from([1, 2])),
                          sampler=draw(st.sampled_from(['auto', 'auto', 'mcmc', 'ns'])), run=draw(st.sampled_from([0, 0, 0, 1])),
                          ic=draw(st.lists(st.sampled_from(['nplanets', 'e', 'trend', 'jit']), min_size=1, max_size=2, unique=True)),
                          mixed=draw(st.booleans()), fixjitter=draw(st.booleans()),
                          table=draw(st.sampled_from(['params', 'priors', 'rv', 'crit', 'derived', 'ic_compare']))))
    return dict(setup=[draw(setup_gen.small(free_max=2, nmax=7, max_planets=1)) for _ in range(2)], steps=steps, seed=draw(st.integers(0, 10 ** 6)))


SECTION = dict(fit='fit', mcmc='mcmc', ns='ns', derive='derive', ic_compare='ic_compare', tables='table')
FUNC = dict(fit='fit', mcmc='mcmc', ns='nested_sampling', derive='derive', ic_compare='ic_compare', tables='tables')


def needs(step, o, done):
    """The earlier step that is missing, if any."""
    if step == 'ic_compare' and 'fit' not in done:
        return 'fit'
    if step in ('derive', 'tables'):
        if o['sampler'] == 'mcmc' and 'mcmc' not in done or o['sampler'] == 'ns' and 'ns' not in done:
            return o['sampler']
        if 'mcmc' not in done and 'ns' not in done:
            return 'sampling'
    if step == 'tables':
        if o['table'] == 'ic_compare' and 'ic_compare' not in done:
            return 'ic_compare'
        if o['table'] == 'derived' and 'derive' not in done:
            return 'derive'
    return None


def check_pipeline(c, ctx):
    d = os.path.realpath(tempfile.mkdtemp())
    cwd = os.getcwd()
    os.chdir(d)
    done = [set(), set()]
    model = [None, None]
    count = 0
    try:
        with C17.quiet(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            np.random.seed(c['seed'] % 2 ** 31)
            names = ['one', 'onetwo']
            for i in (0, 1):
                setup_gen.write(c['setup'][i], names[i] + '.py')
            os.mkdir('out')                                  # both runs share the directory
            for o in c['steps']:
                i, step = o['run'], o['step']
                C = c['setup'][i]
                stat = os.path.join('out', names[i] + '_radvel.stat')
                before = driver.load_status(stat)
                before = {s: dict(before.items(s)) for s in before.sections()}
                other = open(os.path.join('out', names[1 - i] + '_radvel.stat')).read() if done[1 - i] else None
                if step == 'mcmc' and 'fit' not in done[i]:
                    continue                                 # whether it starts from the setup or refuses is not specified
                if step == 'tables' and o['table'] == 'crit' and not (o['sampler'] in ('auto', 'mcmc') and 'mcmc' in done[i]):
                    continue                                 # nested sampling has no convergence criteria
                if step == 'derive' and not C['stellar']:
                    pass
                miss = needs(step, o, done[i])
                a = args(step, names[i] + '.py', 'out', o)
                f = getattr(driver, FUNC[step])
                if miss:
                    try:
                        f(a)
                    except Exception:                        # noqa: the kind of refusal is not specified
                        ctx.label('refused')
                    else:
                        fail("a step was done without the step it needs", step=step, missing=miss, sampler=o['sampler'])
                    now = driver.load_status(stat)
                    now = {s: dict(now.items(s)) for s in now.sections()}
                    require(now == before, "a refused step changed the status", step=step)
                    continue
                f(a)
                now = driver.load_status(stat)
                now = {s: dict(now.items(s)) for s in now.sections()}
                derived = step != 'derive' or C['stellar']
                if derived:
                    done[i].add(step)
                    count += 1
                    require(SECTION[step] in now, "the step left no record", step=step, now=list(now))
                want = {s: v for s, v in before.items() if s != SECTION[step]}
                require({s: v for s, v in now.items() if s != SECTION[step]} == want, "a step changed the record of another", step=step)
                if other is not None:
                    require(open(os.path.join('out', names[1 - i] + '_radvel.stat')).read() == other, "a step changed another run's status")
                if not derived:
                    require(now == before, "nothing was derived, but something was recorded")
                    continue
                e = now[SECTION[step]]
                if step in ('fit', 'mcmc', 'ns', 'derive'):
                    require(e['run'] == 'True', "the run flag of the step", step=step, got=e)
                for k in ('postfile', 'chainfile', 'autocorrfile', 'summaryfile', 'quantfile'):
                    if k in e:
                        require(os.path.exists(e[k]) and os.path.basename(e[k]).startswith(names[i] + '_'), "a recorded file", key=k, file=e[k])
                if step in ('fit', 'mcmc', 'ns'):
                    require('postfile' in e, "no posterior is recorded")
                    post = radvel.posterior.load(e['postfile'])
                    require(sorted(post.name_vary_params()) == sorted(p[0] for p in C['pars'] if p[2]), "the recorded posterior is another run's",
                            got=post.name_vary_params())
                    require(all(np.array_equal(np.sort(post.likelihood.x), np.sort(C['data']['time'])) for _ in (0,)), "the recorded posterior has other data")
                if step == 'mcmc':
                    ch = pd.read_csv(e['chainfile'])
                    nd = len(post.name_vary_params())
                    require(int(e['nwalkers']) == max(2, 2 * nd) and int(e['nensembles']) == o['ens'], "recorded walkers and ensembles", got=e)
                    require(float(e['maxsteps']) == a.nsteps * int(e['nwalkers']) * o['ens'], "recorded number of steps asked", got=e)
                    require(int(float(e['nburn'])) <= int(float(e['nsteps'])), "recorded burn-in")
                    m = sys.modules['radvel.mcmc'].statevars
                    for k in ('minafactor', 'maxarchange', 'mintz', 'maxgr'):
                        require(k in e and isinstance(float(e[k]), float), "a convergence statistic is missing in the record", key=k)
                if step in ('mcmc', 'ns'):
                    ch = pd.read_csv(e['chainfile'])
                    require(set(post.name_vary_params()) | {'lnprobability'} <= set(ch.columns), "columns of the recorded chain")
                if step == 'ns':
                    require(e['nlive'] == str(40 + o['n']), "a sampler option in the record", got=e)
                if step == 'ic_compare':
                    p = radvel.posterior.load(now['fit']['postfile'])
                    if o['fixjitter']:
                        for n in p.params:
                            if n.startswith('jit'):
                                p.vector.vector[p.vector.indices[n]][1] = 0
                        p.list_vary_params()
                        p.likelihood.list_vary_params()
                    if o['mixed']:
                        want = radvel.fitting.model_comp(p, params=list(o['ic']))
                    else:
                        want, keys = [], []
                        for ty in o['ic']:
                            for m in radvel.fitting.model_comp(p, params=[ty]):
                                if sorted(m['Free Params'][0]) not in keys:
                                    keys.append(sorted(m['Free Params'][0]))
                                    want.append(m)
                    require(e['ic'] == str(want), "the recorded models are not those compared", got=e['ic'], want=str(want))
                if step == 'tables':
                    require(os.path.exists(e[o['table'] + '_tex']), "the recorded table")
                    old = before.get('table', {})
                    require({k: v for k, v in e.items() if k != o['table'] + '_tex'} == {k: v for k, v in old.items() if k != o['table'] + '_tex'},
                            "the record of another table changed")
                ctx.label(step)
    finally:
        os.chdir(cwd)
    ctx.nontrivial(count >= 2)


@st.composite
def refit_history(draw):
    c = draw(pipeline())
    mk = lambda step: dict(step=step, n=draw(st.integers(3, 12)), ens=1, thin=1, sampler='mcmc', run=0, ic=['e'], mixed=True, fixjitter=False,  # noqa
                           table='params')
    c['steps'] = [mk(x) for x in ['fit', 'mcmc'] + draw(st.sampled_from([[], ['tables'], ['derive']])) + ['fit', 'tables']]
    return c


SUBCHECKS = [Sub("refit", refit_history(), check_pipeline, quick=4, thorough=60, budget=20, weight=2),
             Sub("updates", updates(), check_updates, quick=800, thorough=20000, budget=30),
             Sub("pipeline", pipeline(), check_pipeline, quick=40, thorough=1500, budget=40, weight=4),
             Sub("pipeline2", pipeline(), check_pipeline, quick=40, thorough=1500, budget=40, weight=4)]
