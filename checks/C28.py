"""C28: pipeline steps transform results row by row and honour their options."""
import contextlib
import importlib
import inspect
import io
import math
import os
import sys
import tempfile
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import radvel
import radvel.cli
from radvel import driver
from vlib import gen, rvx, setup_gen
from vlib.core import Sub, close, fail, require
from vlib.swap import everywhere
from checks import C17, C22, C24

PROPERTY = "C28"
RULE = ("runs of 1-3 planets in any basis with arbitrary stored chains, stellar and planetary parameters and sampler histories; command lines of every "
        "sampling and comparison command with options drawn, in any order, with and without free-form sampler options; non-trivial: a chain of several "
        "different samples / a command line with an option that is not the default")
ME_MS = C22.MEARTH / C22.MSUN


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp())
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with C17.quiet(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ derive

def system(draw, stellar=True, npmax=3, kmax=200.0):
    npl = draw(st.integers(1, npmax))
    basis = draw(st.sampled_from(rvx.BASES))
    orbits = [dict(per=draw(gen.logu(1, 2000)), tp=draw(gen.fl(0, 30)), e=draw(gen.eccs(0.7)), w=draw(gen.fl(-3, 3)), k=draw(gen.logu(0.3, kmax)))
              for _ in range(npl)]
    vals = {}
    for i, o in enumerate(orbits):
        for p, v in rvx.encode(basis, o).items():
            vals['%s%d' % (p, i + 1)] = v
    vals.update(dvdt=draw(gen.fl(-0.1, 0.1)), curv=0.0, gamma_a=draw(gen.fl(-5, 5)), jit_a=draw(gen.fl(0.5, 2)))
    free = sorted(draw(st.lists(st.sampled_from(sorted(vals)), min_size=1, max_size=len(vals), unique=True)))
    n = draw(st.integers(5, 9))
    t = draw(gen.distinct_times(0, 60, n, n))
    data = dict(time=t, mnvel=draw(st.lists(gen.fl(-15, 15), min_size=n, max_size=n)), errvel=[1.0] * n, tel=['a'] * n)
    planet = {}
    for i in range(npl):
        if draw(st.booleans()):
            planet['rp%d' % (i + 1)] = draw(gen.fl(1, 12))
            planet['rp_err%d' % (i + 1)] = draw(st.sampled_from([0.0, 1e-6, 0.01, 0.1]))
    return dict(star='s1', orbits=orbits, instnames=['a'], basis=basis, bjd0=0.0, letters=draw(st.sampled_from([None, 'bcd', 'dce'])),
                pars=[[k, v, k in free, None, False] for k, v in vals.items()], data=data, index=None, priors=[], time_base=10.0,
                stellar=dict(mstar=draw(gen.logu(0.05, 5)), mstar_err=0.0) if stellar else None, planet=planet or None,
                decorr_vars=None, hnames=None, kernel_name=None), free


@st.composite
def derive_case(draw):
    C, free = system(draw)
    if C['letters']:
        C['letters'] = C['letters'][:len(C['orbits'])]
    C['stellar']['mstar_err'] = C['stellar']['mstar'] * draw(st.sampled_from([0.0, 0.01, 0.1, 0.6]))
    if draw(st.integers(0, 9)) == 7:
        C['stellar'] = None
    return dict(C=C, free=free, m=draw(st.one_of(st.integers(1, 6), st.integers(2, 60))), seed=draw(st.integers(0, 10 ** 6)),
                have=draw(st.sampled_from([['mcmc'], ['ns'], ['mcmc', 'ns'], ['ns', 'mcmc']])), ask=draw(st.sampled_from(['auto', 'auto', 'mcmc', 'ns'])),
                extra=draw(st.booleans()), twice=draw(st.booleans()))


def chain_for(c, seed, m):
    """Samples of the free parameters around the setup's values, and values of the fixed ones."""
    rng = np.random.RandomState(seed)
    free, fixed = {}, {}
    for n, v, vary, _, _ in c['C']['pars']:
        u = rng.uniform(-1, 1, m)
        stem = n.rstrip('0123456789')
        if stem in ('e', 'se'):
            x = np.abs(v + 0.05 * u)
        elif stem in ('secosw', 'sesinw', 'ecosw', 'esinw'):
            x = v + 0.03 * u
        elif stem in ('per', 'k'):
            x = v * (1 + 0.3 * u)
        else:
            x = v + 0.3 * u
        if vary:
            free[n] = x
        else:
            fixed[n] = float(x[0])
    return free, fixed


def check_derive(c, ctx):
    C, m = c['C'], c['m']
    npl = len(C['orbits'])
    with scratch() as d:
        np.random.seed(c['seed'])
        setup_gen.write(C, 'sys.py')
        os.mkdir('out')
        stat = os.path.join('out', 'sys_radvel.stat')
        P, post0 = radvel.utils.initialize_posterior('sys.py')
        made = {}
        for j, s in enumerate(c['have']):
            free, fixed = chain_for(c, c['seed'] + 17 * j, m + 3 * j)
            P, post = radvel.utils.initialize_posterior('sys.py')
            for n, v in fixed.items():
                post.params[n].value = v
            for n, v in free.items():
                post.params[n].value = float(v[0])
            post.vector.dict_to_vector()
            pf, cf = os.path.join('out', 'post_%s.pkl' % s), os.path.join('out', 'chains_%s.csv.bz2' % s)
            post.writeto(pf)
            ch = pd.DataFrame(free)
            ch['lnprobability'] = np.arange(len(ch)) * -1.0
            ch.to_csv(cf, compression='bz2')
            driver.save_status(stat, s, dict(run=True, postfile=pf, chainfile=cf))
            made[s] = free, fixed, pf, cf
        args = mock.Mock(spec=[])
        args.setupfn, args.outputdir, args.sampler, args.decorr = 'sys.py', 'out', c['ask'], False
        use = c['ask'] if c['ask'] != 'auto' else ('mcmc' if 'mcmc' in made else 'ns')
        if use not in made:
            try:
                driver.derive(args)
            except ValueError:
                ctx.label('refused')
                return
            fail("the chains of a sampler that was not run were used", have=c['have'], asked=c['ask'])
        keep = {s: (open(x[2], 'rb').read(), open(x[3], 'rb').read()) for s, x in made.items()}
        driver.derive(args)
        if c['twice'] and C['stellar']:
            driver.derive(args)
        st_ = driver.load_status(stat)
        if not C['stellar']:
            require(not st_.has_section('derive'), "results are announced although the star is unknown")
            ctx.label('no star')
            return
        require(st_.getboolean('derive', 'run'), "the derive step is recorded")
        free, fixed, pf, cf = made[use]
        mm = len(next(iter(free.values())))
        got = pd.read_csv(st_.get('derive', 'chainfile'), index_col=0)
        require(len(got) == mm, "one row of derived parameters for each sample", got=len(got), expected=mm)
        want_cols = set()
        for i in range(1, npl + 1):
            want_cols |= {'mpsini%d' % i, 'a%d' % i, 'musini%d' % i}
            if C['planet'] and 'rp%d' % i in C['planet']:
                want_cols.add('rhop%d' % i)
        require(set(got.columns) == want_cols, "derived parameters", got=sorted(got.columns), expected=sorted(want_cols))
        stars = []
        for i in range(1, npl + 1):
            mass, mu, a = (np.asarray(got['%s%d' % (k, i)]) for k in ('mpsini', 'musini', 'a'))
            star = mass * ME_MS / mu
            stars.append(star)
            orb = []
            for r in range(mm):
                v = {p: float(free['%s%d' % (p, i)][r]) if '%s%d' % (p, i) in free else fixed['%s%d' % (p, i)] for p in C['basis'].split()}
                orb.append(rvx.decode(C['basis'], v))
            light = np.array([C22.light_mass(o['k'], o['per'], s, o['e']) for o, s in zip(orb, star)])
            ratio = light / (star * C22.MSUN)
            if np.any(np.abs(ratio - 0.1) < 1e-3):
                ctx.label('borderline')
                continue
            heavy = bool(np.any(ratio > 0.1))
            want = light if not heavy else np.array([C22.exact_mass(o['k'], o['per'], s, o['e']) for o, s in zip(orb, star)])
            close(mass, want / C22.MEARTH, rtol=1e-4, msg="minimum masses of a planet, sample by sample", planet=i, heavy=heavy)
            per = np.array([o['per'] for o in orb]) * C22.DAY
            axis = (C22.G * C22.MSUN * (star + mass * ME_MS) * per ** 2 / (4 * np.pi ** 2)) ** (1 / 3.) / C22.AU
            close(a, axis, rtol=1e-4, msg="semi-major axes of a planet, sample by sample", planet=i)
            if 'rhop%d' % i in want_cols:
                rho = np.asarray(got['rhop%d' % i])
                rp = (mass * C22.MEARTH * 1e3 / (4 / 3. * np.pi * rho)) ** (1 / 3.) / (C22.REARTH * 1e2)
                z = (rp - C['planet']['rp%d' % i]) / max(C['planet']['rp_err%d' % i], 1e-3 * C['planet']['rp%d' % i])
                require(bool(np.all(np.abs(z) < 7)), "radii behind the densities of a planet", planet=i, z=z.tolist())
        for s in stars[1:]:
            close(s, stars[0], rtol=1e-9, msg="planets of one sample have stars of different mass")
        ms, es = C['stellar']['mstar'], C['stellar']['mstar_err']
        if es == 0:
            close(stars[0], ms + 0 * stars[0], rtol=1e-4, msg="stellar mass")
        else:
            z = (stars[0] - ms) / es
            zz = (-stars[0] - ms) / es
            require(bool(np.all((np.abs(z) < 7) | (np.abs(zz) < 7))), "stellar masses", z=z.tolist())
            if es < 0.3 * ms and mm >= 4:
                require(abs(z.mean()) < 6 / math.sqrt(mm) + 0.01, "mean stellar mass", z=z.tolist())
                require(z.std() > 0.02, "stellar masses do not vary", z=z.tolist())
        # quantiles, in the file and with the posterior
        q = pd.read_csv(st_.get('derive', 'quantfile'), index_col=0)
        p2 = radvel.posterior.load(pf)
        for k in want_cols:
            w = np.quantile(np.asarray(got[k]), [0.159, 0.5, 0.841])
            close(q[k].values, w, rtol=1e-9, msg="quantiles of derived parameters", name=k)
            close(p2.derived[k].values, w, rtol=1e-9, msg="quantiles of derived parameters in the posterior", name=k)
        for n, v in fixed.items():
            close(p2.params[n].value, v, rtol=0, atol=0, msg="deriving changed the posterior", name=n)
        # the chains are as they were; the other sampler's results too
        for s, (b1, b2) in keep.items():
            require(open(made[s][3], 'rb').read() == b2, "stored chains were changed", sampler=s)
            if s != use:
                require(open(made[s][2], 'rb').read() == b1, "the posterior of another sampler was changed", sampler=s)
    ctx.nontrivial(mm > 1)
    ctx.label(use, '%d planets' % npl)


# ------------------------------------------------------------------ after sampling

@st.composite
def post_case(draw):
    C = draw(setup_gen.small(free_max=3, nmax=8, max_planets=2, stellar=False))
    return dict(C=C, m=draw(st.integers(5, 80)), seed=draw(st.integers(0, 10 ** 6)), how=draw(st.sampled_from(['ns', 'ns', 'direct', 'mcmc'])),
                cols=draw(st.integers(0, 10 ** 6)), labels=draw(st.sampled_from(['range', 'shuffled'])), spread=draw(st.sampled_from([1.0, 0.1, 1e-3])))


def fabricate(c, post):
    rng = np.random.RandomState(c['seed'])
    out = {}
    for n in post.name_vary_params():
        v = float(post.params[n].value)
        s = 0.002 * abs(v) if n.startswith('per') else (0.002 if n.startswith('logper') else 1.0)
        out[n] = v + s * c['spread'] * (rng.standard_normal(c['m']) + 0.3)
        if n.startswith('k'):
            out[n] = np.abs(out[n])
    out['lnprobability'] = rng.uniform(-100, -50, c['m'])
    names = list(out)
    rng.shuffle(names)
    df = pd.DataFrame({n: out[n] for n in names})
    if c['labels'] == 'shuffled':
        df.index = rng.permutation(c['m'])
    return df


class Stop(Exception):
    pass


def check_post(c, ctx):
    C = c['C']
    with scratch() as d:
        np.random.seed(c['seed'])
        setup_gen.write(C, 'sys.py')
        os.mkdir('out')
        stat = os.path.join('out', 'sys_radvel.stat')
        P, post = radvel.utils.initialize_posterior('sys.py')
        chains = fabricate(c, post)
        keep = chains.copy(deep=True)
        free = post.name_vary_params()
        fixed = {n: p.value for n, p in post.params.items() if n not in free and not p.linear}
        if c['how'] == 'direct':
            p2, summ, ch = driver.sampling_postprocessing(post, chains)
            pd.testing.assert_frame_equal(ch, keep)
        else:
            argv = ['radvel', c['how'], '-s', 'sys.py', '-d', 'out']
            if c['how'] == 'ns':
                target = everywhere(radvel.nested_sampling.run, lambda *a, **k: dict(samples=chains, lnZ=0.0, lnZerr=0.1, sampler=None))
            else:
                pf = os.path.join('out', 'sys_post_obj.pkl')
                post.writeto(pf)
                driver.save_status(stat, 'fit', dict(run=True, postfile=pf))
                sv = importlib.import_module('radvel.mcmc').statevars
                for k, v in dict(mintz=5.0, maxgr=1.5, minafactor=2.0, maxarchange=0.5, autosamples=[1], automin=[1], automean=[1], automax=[1], factor=[1],
                                 nwalkers=4, ncomplete=9, nburn=2).items():
                    setattr(sv, k, v)
                target = everywhere(importlib.import_module('radvel.mcmc').mcmc, lambda *a, **k: chains)
            with target, mock.patch.object(sys, 'argv', argv):
                radvel.cli.main()
            st_ = driver.load_status(stat)
            sec = c['how']
            require(st_.has_section(sec) and st_.getboolean(sec, 'run'), "the step is recorded")
            saved = pd.read_csv(st_.get(sec, 'chainfile'), index_col=0)
            require(set(saved.columns) == set(keep.columns) and len(saved) == len(keep), "the chains saved are not those of the sampler")
            for k in keep.columns:
                close(saved[k].values, keep[k].values, rtol=1e-14, msg="the chains saved are not those of the sampler", name=k)
            summ = pd.read_csv(st_.get(sec, 'summaryfile'), index_col=0)
            p2 = radvel.posterior.load(st_.get(sec, 'postfile'))
        pd.testing.assert_frame_equal(chains, keep)
    for k in keep.columns:
        close(summ[k].values, np.quantile(keep[k].values, [0.159, 0.5, 0.841]), rtol=1e-9, msg="summary of the chains", name=k)
    # best fit: no worse than the medians it starts from, fixed parameters as they were
    for n, v in fixed.items():
        close(p2.params[n].value, v, rtol=0, atol=0, msg="a fixed parameter was changed", name=n)
    require(p2.name_vary_params() == free, "free parameters changed")
    lp = p2.logprob()
    best = [p2.params[n].value for n in free]
    close(p2.get_vary_params(), best, rtol=0, atol=0, msg="vector and parameters of the saved posterior differ")
    at_med = float(p2.logprob_array(np.array([np.median(keep[n]) for n in free])))
    p2.set_vary_params(best)
    require(lp >= at_med - 1e-9 * (1 + abs(at_med)) or not np.isfinite(at_med), "the updated best fit is worse than the medians of the chains", best=lp, medians=at_med)
    # uncertainties
    npl = len(C['orbits'])
    want = {n: keep[n].values for n in free}
    for i in range(1, npl + 1):
        rows = []
        for r in range(len(keep)):
            rows.append(rvx.decode(C['basis'], {p: float(keep['%s%d' % (p, i)].iloc[r]) if '%s%d' % (p, i) in free else float(fixed['%s%d' % (p, i)])
                                                for p in C['basis'].split()}))
        for p in ('per', 'tp', 'e', 'w', 'k'):
            want['%s%d' % (p, i)] = np.array([o[p] for o in rows])
    seen = 0
    for n, x in want.items():
        if n not in p2.uparams:
            require(n in free and not any(n == q + str(i) for q in ('per', 'tp', 'e', 'w', 'k') for i in (1, 2)), "no uncertainty for a parameter", name=n)
            continue
        # a time of periastron is any of those of the orbit, the same one for all samples
        turns = [0] if not (n.startswith('tp') and 'tc' in C['basis'].split()) else [0, -1, 1, -2, 2]
        bad = None
        for turn in turns:
            y = x + turn * want['per' + n[2:]] if turn else x
            bad = judge(p2, n, y)
            if bad is None:
                break
        if bad:
            fail(bad[0], name=n, **bad[1])
        seen += np.ptp(x) > 0
    ctx.nontrivial(seen > 0)
    ctx.label(c['how'], '%d free' % len(free))


def judge(post, n, x):
    """None if the stored uncertainty and median describe the samples x."""
    lo, med, hi = np.quantile(x, [0.159, 0.5, 0.841])
    err = 0.5 * (hi - lo)
    u, md = float(post.uparams[n]), float(post.medparams[n])
    if err < 1e-6 * max(1, abs(med)):
        if u > 2e-6 * max(1, abs(med)):
            return "uncertainty of a parameter that does not vary", dict(u=u)
        return None
    if abs(u - err) > 0.051 * err + 1e-12:
        return "uncertainty of a parameter is not half its 68% interval, to two figures", dict(u=u, expected=err)
    unit = 10.0 ** -C24.decimals(u)                  # last decimal with which the uncertainty is printed
    if abs(md - med) > 0.5 * unit * (1 + 1e-9) + 1e-9 * abs(med):
        return "median of a parameter", dict(median=md, expected=med, u=u)
    return None


# ------------------------------------------------------------------ options

VALUES = st.one_of(
    st.integers(-10 ** 6, 10 ** 6).map(lambda i: (str(i), i)),
    gen.fl(-1e6, 1e6).map(lambda f: (repr(f), f)),
    st.sampled_from([('1e-3', 1e-3), ('.5', 0.5), ('1E5', 1e5), ('inf', math.inf), ('+7', 7), ('-0.25', -0.25), ('007', 7)]),
    st.sampled_from([('true', True), ('False', False), ('TRUE', True), ('True', True), ('false', False)]),
    st.sampled_from(['rslice', 'unif', 'a=b', '/tmp/x_1/y', 'None', 'x=', '1x', 'truth', 'multi', 'e5', '10%', '10_runs', '5_', '[1,2]', 'a,b', '1,5', '3;4', '1/2', '0x10', '1e', '--', '"q"', '1.2.3', '5min', '-']).map(lambda s: (s, s)))
KEYS = st.text('abcdefghijklmnopqrstuvwxyz_', min_size=1, max_size=10)


@st.composite
def kwargs_str(draw):
    d = draw(st.dictionaries(KEYS, VALUES, max_size=4))
    if not d and draw(st.booleans()):
        return None, {}
    sep = draw(st.sampled_from([' ', '  ', '\t']))
    s = sep.join('%s=%s' % (k, v[0]) for k, v in d.items())
    pad = draw(st.sampled_from(['', ' ']))
    return pad + s + pad, {k: v[1] for k, v in d.items()}


NUM = dict(nsteps=(gen.fl(1, 1e5).map(round), float), nwalkers=(st.integers(2, 300), int), nensembles=(st.integers(1, 20), int),
           minAfactor=(gen.fl(1, 100), float), maxArchange=(gen.fl(0.001, 1), float), maxGR=(gen.fl(1, 2), float), burnGR=(gen.fl(1, 2), float),
           burnAfactor=(gen.fl(1, 100), float), minTz=(st.integers(1, 10 ** 5), int), minsteps=(st.integers(1, 10 ** 5), int),
           minpercent=(gen.fl(1, 100), float), thin=(st.integers(1, 100), int))
MCMC_DEFAULTS = dict(nsteps=10000, nwalkers=50, nensembles=8, minAfactor=40, maxArchange=.03, maxGR=1.01, burnGR=1.03, burnAfactor=25, minTz=1000,
                     minsteps=1000, minpercent=5, thin=10)
ARGNAME = dict(nsteps='nrun', nensembles='ensembles')


@st.composite
def option_case(draw):
    cmd = draw(st.sampled_from(['mcmc', 'ns', 'ic', 'ic', 'fit', 'corner', 'derived']))
    C = draw(setup_gen.small(free_max=3, nmax=7, max_planets=1))
    c = dict(cmd=cmd, C=C, outdir=draw(st.sampled_from([None, 'here', os.path.join('.', 'there')])), decorr=False, fitted=True, order=draw(st.integers(0, 10 ** 6)),
             shift=draw(gen.fl(0.5, 3)))
    if cmd == 'mcmc':
        o = {}
        for k in draw(st.lists(st.sampled_from(sorted(NUM)), max_size=6, unique=True)):
            o[k] = draw(NUM[k][0])
        c['opts'] = o
        c['serial'] = draw(st.sampled_from([None, None, 'True', 'true', 'False', 'false', '1', '0', 'yes', 'no']))
        for k in ('save', 'proceed', 'headless'):
            c[k] = draw(st.booleans())
    elif cmd == 'ns':
        from radvel.nested_sampling import BACKENDS
        c['sampler'] = draw(st.sampled_from([None] + sorted(BACKENDS)))
        c['proceed'], c['overwrite'] = draw(st.booleans()), draw(st.booleans())
        c['run'], c['samp'] = draw(kwargs_str()), draw(kwargs_str())
    elif cmd == 'ic':
        c['type'] = draw(st.one_of(st.none(), st.lists(st.sampled_from(['nplanets', 'e', 'trend', 'jit', 'gp']), min_size=1, max_size=4, unique=True)))
        c['mixed'] = draw(st.sampled_from([None, None, '-m', '-u', '--un-mixed', '--mixed']))
        c['fix'] = draw(st.sampled_from([None, None, '-f', '-n', '--fixjitter', '--no-fixjitter']))
        c['simple'] = draw(st.sampled_from([False, False, True]))
        c['free_jit'] = draw(st.booleans())
        c['repeat'] = draw(st.lists(st.integers(0, 3), min_size=4, max_size=4))
    elif cmd in ('corner', 'derived'):
        c['have'] = draw(st.sampled_from([['mcmc'], ['ns'], ['mcmc', 'ns'], ['ns', 'mcmc']]))
        c['ask'] = draw(st.sampled_from([None, 'auto', 'mcmc', 'ns']))
    c['decorr'] = cmd == 'fit' and draw(st.booleans())
    return c


class Recorder(object):
    def __init__(self, original, result=None):
        self.sig = inspect.signature(original)
        self.result = result
        self.calls = []

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        self.calls.append(dict(b.arguments))
        if self.result is None:
            raise Stop
        return self.result(len(self.calls) - 1, b.arguments) if callable(self.result) else self.result


def check_options(c, ctx):
    C, cmd = dict(c['C']), c['cmd']
    if cmd == 'ic' and c['free_jit']:
        C['pars'] = [[n, v, vary or n.startswith('jit'), s, l] for n, v, vary, s, l in C['pars']]
    if c['decorr']:
        C['decorr_vars'] = ['air']
        C['data'] = dict(C['data'], air=[1.0 + 0.1 * i for i in range(len(C['data']['time']))])
    given = []              # groups of words
    out = c['outdir'] or os.path.join('.', 'sys')
    given.append(['-s', 'sys.py'])
    if c['outdir']:
        given.append(['-d', c['outdir']])
    with scratch() as d:
        np.random.seed(c['order'] % 1000)
        setup_gen.write(C, 'sys.py')
        os.mkdir(out)
        stat = os.path.join(out, 'sys_radvel.stat')
        P, post = radvel.utils.initialize_posterior('sys.py')
        first = post.name_vary_params()[0]
        fitted = post.params[first].value * (1 + 1e-3 * c['shift'])
        post.params[first].value = fitted
        post.vector.dict_to_vector()
        pf = os.path.join(out, 'mypost.pkl')
        post.writeto(pf)
        if cmd != 'fit':
            driver.save_status(stat, 'fit', dict(run=True, postfile=pf))
        seen = {}
        if cmd == 'mcmc':
            o = dict(c['opts'])
            for k, v in o.items():
                given.append(['--' + k, repr(v)] if c['order'] % 2 else ['--%s=%r' % (k, v)])
            if c['serial']:
                given.append(['--serial', c['serial']])
            given += [['--' + k] for k in ('save', 'proceed', 'headless') if c[k]]
            module = importlib.import_module('radvel.mcmc')
            rec = Recorder(module.mcmc)
            patches = [everywhere(module.mcmc, rec)]
        elif cmd == 'ns':
            for n, k in (('sampler', c['sampler']), ('run-kwargs', c['run'][0]), ('sampler-kwargs', c['samp'][0])):
                if k is not None:
                    given.append(['--%s=%s' % (n, k)])
            given += [['--' + k] for k in ('proceed', 'overwrite') if c[k]]
            rec = Recorder(radvel.nested_sampling.run)
            patches = [everywhere(radvel.nested_sampling.run, rec)]
        elif cmd == 'ic':
            if c['type']:
                given.append(['-t'] + c['type'])
            given += [[c[k]] for k in ('mixed', 'fix') if c[k]]
            if c['simple']:
                given.append(['--simple'])
            rec = Recorder(radvel.fitting.model_comp,
                           lambda i, a: [{'Free Params': [['x%d' % r] for r in c['repeat'][:1]], 'AICc': (float(i), ''), 'call': i},
                                         {'Free Params': [['y%d' % c['repeat'][i % 4], 'z']], 'AICc': (0.5 + i, ''), 'call': i}])
            patches = [everywhere(radvel.fitting.model_comp, rec)]
        elif cmd == 'fit':
            rec = Recorder(radvel.fitting.maxlike_fitting, lambda i, a: a['post'])
            patches = [everywhere(radvel.fitting.maxlike_fitting, rec)]
            if c['decorr']:
                given.append(['--decorr'])
        else:
            for j, s in enumerate(c['have']):
                cf = os.path.join(out, 'ch_%s.csv' % s)
                pd.DataFrame({first: np.arange(4) + 100.0 * j, 'k9': np.arange(4.0)}).to_csv(cf)
                driver.save_status(stat, s, dict(run=True, postfile=pf, chainfile=cf))
                seen[s] = 100.0 * j
            dcf = os.path.join(out, 'derived.csv')
            pd.DataFrame({'mpsini1': np.arange(5) * 7.0}).to_csv(dcf)
            driver.save_status(stat, 'derive', dict(run=True, chainfile=dcf))
            given.append(['-t', cmd])
            if c['ask']:
                given.append(['--sampler', c['ask']])
            cls = 'CornerPlot' if cmd == 'corner' else 'DerivedPlot'
            from radvel.plot import mcmc_plots
            rec = Recorder(lambda *a, **k: None)
            rec = Recorder(getattr(mcmc_plots, cls))
            patches = [everywhere(getattr(mcmc_plots, cls), rec)]
        rng = np.random.RandomState(c['order'])
        rng.shuffle(given)
        argv = ['radvel', {'corner': 'plot', 'derived': 'plot'}.get(cmd, cmd)] + [w for g in given for w in g]
        stopped = error = None
        with contextlib.ExitStack() as es:
            for p in patches:
                es.enter_context(p)
            es.enter_context(mock.patch.object(sys, 'argv', argv))
            try:
                radvel.cli.main()
            except Stop:
                stopped = True
            except ValueError as e:
                if cmd != 'corner':
                    raise
                error = e
        status = driver.load_status(stat)
        if cmd == 'corner' and c['ask'] in ('mcmc', 'ns') and c['ask'] not in c['have']:
            require(error is not None and not rec.calls, "the chains of a sampler that was not run were used")
            ctx.nontrivial()
            return
        require(error is None, "the command fails", error=repr(error), argv=argv)
        require(len(rec.calls) >= 1, "the command never reached its step", argv=argv)
        a = rec.calls[0]
        if cmd == 'mcmc':
            for k, dflt in MCMC_DEFAULTS.items():
                w = c['opts'].get(k, dflt)
                g = a[ARGNAME.get(k, k)]
                require(g == w and not isinstance(g, (str, bool)), "an option does not reach the sampler with the value typed", option=k, got=g, expected=w)
            want = c['serial'] is not None and c['serial'].lower() in ('true', '1', 'yes')
            require(bool(a['serial']) == want, "--serial", got=a['serial'], typed=c['serial'])
            for k in ('save', 'proceed', 'headless'):
                require(bool(a[k]) == c[k], "a flag does not reach the sampler", option=k, got=a[k])
            back = os.path.join(out, 'sys_rawchain.h5')
            for k, on in (('savename', c['save'] or c['proceed']), ('proceedname', c['proceed'])):
                if on:
                    require(os.path.abspath(a[k]) == os.path.abspath(back), "file of the raw chains", got=a[k])
            if not (c['save'] or c['proceed']):
                require(a['savename'] is None, "raw chains are stored unasked", got=a['savename'])
            close(float(a['post'].params[first].value), fitted, rtol=0, atol=0, msg="sampling does not start from the fit")
        elif cmd == 'ns':
            require(a['sampler'] == (c['sampler'] or 'ultranest'), "the sampler used is not the one requested", got=a['sampler'], asked=c['sampler'])
            for k, w in (('run_kwargs', c['run'][1]), ('sampler_kwargs', c['samp'][1])):
                g = a[k] or {}
                require(set(g) == set(w), "sampler options", which=k, got=g, expected=w)
                for x in w:
                    require(g[x] == w[x] and type(g[x]) is type(w[x]), "a sampler option has not the value and type typed", which=k, name=x, got=g[x], expected=w[x])
            require(bool(a['proceed']) == c['proceed'], "--proceed", got=a['proceed'])
            require(bool(a['overwrite']) == c['overwrite'] or c['proceed'], "--overwrite", got=a['overwrite'])
            require(os.path.abspath(a['output_dir']) == os.path.abspath(os.path.join(out, 'sys_ns')), "directory of the sampler", got=a['output_dir'])
        elif cmd == 'ic':
            types = c['type'] or ['trend']
            calls = [list(x['params']) for x in rec.calls]
            unmixed = c['mixed'] in ('-u', '--un-mixed')
            want = [[]] if c['simple'] else ([[t] for t in types] if unmixed else [types])
            require(sorted(map(sorted, calls)) == sorted(map(sorted, want)), "the comparisons made are not those asked for", got=calls, expected=want)
            fix = c['fix'] in ('-f', '--fixjitter') and not c['simple']
            for x in rec.calls:
                p = x['post']
                free = set(p.name_vary_params())
                expect = {n for n, v, vary, s, l in C['pars'] if vary and not (fix and n.startswith('jit'))}
                if not c['simple'] or not c['fix']:
                    require(free == expect, "free parameters of the models compared", got=sorted(free), expected=sorted(expect))
                    require(len(p.get_vary_params()) == len(expect) == len(p.likelihood.get_vary_params()), "number of free parameters")
                close(float(p.params[first].value), fitted, rtol=0, atol=0, msg="comparisons do not start from the fit")
            stats = eval(status.get('ic_compare', 'ic'))
            keys = [tuple(sorted(s['Free Params'][0])) for s in stats]
            made = []
            for i in range(len(calls)):
                made += [('x%d' % c['repeat'][0],), tuple(sorted(('y%d' % c['repeat'][i % 4], 'z')))]
            require(set(keys) == set(made), "models compared are missing from the results", got=keys, expected=made)
            require(len(keys) == len(set(keys)), "a model is listed more than once", got=keys)
        elif cmd == 'fit':
            got = set(a['post'].params)
            require(('c1_air_%s' % C['instnames'][0] in got) == c['decorr'], "--decorr", got=sorted(got))
            require(status.getboolean('fit', 'run'), "the fit is recorded")
            p2 = radvel.posterior.load(status.get('fit', 'postfile'))
            require(os.path.dirname(os.path.abspath(status.get('fit', 'postfile'))) == os.path.abspath(out), "results are not in the working directory")
            require(set(p2.params) == got, "the posterior saved is not the one fitted")
        elif cmd == 'corner':
            use = c['ask'] if c['ask'] in ('mcmc', 'ns') else ('mcmc' if 'mcmc' in seen else 'ns')
            require(float(a['chains'][first].iloc[0]) == seen[use], "the chains plotted are those of another sampler", got=float(a['chains'][first].iloc[0]), expected=use)
        else:
            require(list(a['chains']['mpsini1']) == [0.0, 7.0, 14.0, 21.0, 28.0], "derived chains plotted")
    ctx.nontrivial(len(given) > 1 + bool(c['outdir']))
    ctx.label(cmd)


# ------------------------------------------------------------------ plots

CLASSES = dict(rv='MultipanelPlot', gp='GPMultipanelPlot', corner='CornerPlot', auto='AutoPlot', trend='TrendPlot', derived='DerivedPlot')


@st.composite
def plots_case(draw):
    kw = {}
    for k, v in (('nobin', True), ('yscale_auto', True), ('legend', False), ('phase_ncols', 2), ('saveplot', 'mine.pdf'), ('yscale_sigma', 2.5)):
        if draw(st.integers(0, 3)) == 0:
            kw[k] = v
    return dict(C=draw(setup_gen.small(free_max=3, nmax=7, max_planets=2)), types=draw(st.lists(st.sampled_from(['rv', 'corner', 'auto', 'trend', 'derived']),
                min_size=1, max_size=5, unique=True)), have=draw(st.sampled_from([[], ['mcmc'], ['ns'], ['mcmc', 'ns'], ['ns', 'mcmc']])),
                ask=draw(st.sampled_from([None, None, 'auto', 'mcmc', 'ns'])), kw=draw(st.sampled_from([None, kw, kw])), gp=draw(st.integers(0, 3)) == 0,
                unc=draw(st.booleans()), derived=draw(st.integers(0, 3)) > 0, outdir=draw(st.sampled_from([None, 'here'])), order=draw(st.integers(0, 10 ** 6)),
                nw=draw(st.integers(2, 60)), ne=draw(st.integers(1, 9)))


def check_plots(c, ctx):
    """`radvel plot` gives each figure the results of the run, in the order asked for, and records the file."""
    from radvel.plot import mcmc_plots, orbit_plots
    C, types = dict(c['C'], bjd0=[2450000.0, 0.0, 2454833.0][c['order'] % 3]), c['types']
    out = c['outdir'] or os.path.join('.', 'sys')
    with scratch() as d:
        setup_gen.write(C, 'sys.py')
        os.mkdir(out)
        stat = os.path.join(out, 'sys_radvel.stat')
        P, post = radvel.utils.initialize_posterior('sys.py')
        first = post.name_vary_params()[0]
        post.params[first].value *= 1 + 1e-3
        post.vector.dict_to_vector()
        unc = {'k1': 0.25, first: 0.125} if c['unc'] else None
        if unc:
            post.uparams = unc
        pf = os.path.join(out, 'mypost.pkl')
        post.writeto(pf)
        driver.save_status(stat, 'fit', dict(run=True, postfile=pf))
        for j, s in enumerate(c['have']):
            cf, af = os.path.join(out, 'ch_%s.csv' % s), os.path.join(out, 'auto_%s.csv' % s)
            pd.DataFrame({first: np.arange(4) + 100.0 * j, 'k9': np.arange(4.0)}).to_csv(cf)
            keys = dict(run=True, postfile=pf, chainfile=cf)
            if s == 'mcmc':
                pd.DataFrame({'autosamples': [10, 20, 30]}).to_csv(af)
                keys.update(autocorrfile=af, nwalkers=c['nw'], nensembles=c['ne'])
            driver.save_status(stat, s, keys)
        if c['derived']:
            dcf = os.path.join(out, 'derived.csv')
            pd.DataFrame({'mpsini1': np.arange(5) * 7.0}).to_csv(dcf)
            driver.save_status(stat, 'derive', dict(run=True, chainfile=dcf))
        given = [['-s', 'sys.py'], ['-t'] + types]
        for on, words in ((c['outdir'], ['-d', c['outdir']]), (c['ask'], ['--sampler', c['ask']]), (c['kw'] is not None, ['--plotkw', repr(c['kw'])]), (c['gp'], ['--gp'])):
            if on:
                given.append(words)
        np.random.RandomState(c['order']).shuffle(given)
        argv = ['radvel', 'plot'] + [w for g in given for w in g]
        recs, log, error = {}, [], None
        with contextlib.ExitStack() as es:
            for k, n in CLASSES.items():
                module = orbit_plots if k in ('rv', 'gp') else mcmc_plots
                fig = mock.Mock()
                fig.plot = fig.plot_multipanel = lambda *a, k=k, **kw: log.append(k)
                recs[k] = Recorder(getattr(module, n), lambda i, a, fig=fig: fig)
                es.enter_context(everywhere(getattr(module, n), recs[k]))
            es.enter_context(mock.patch.object(sys, 'argv', argv))
            try:
                radvel.cli.main()
            except (AssertionError, ValueError) as e:
                error = e
        # what has to happen
        if c['ask'] in ('mcmc', 'ns'):
            use = c['ask'] if c['ask'] in c['have'] else None
        else:
            use = 'mcmc' if 'mcmc' in c['have'] else (c['have'] or [None])[0]
        made, refused = [], False
        for t in types:
            if t == 'corner' and use is None or t in ('auto', 'trend') and use != 'mcmc' or t == 'derived' and not c['derived']:
                refused = True
                break
            made.append(t)
        require((error is not None) == refused, "a figure is refused exactly if its results are missing", error=repr(error), types=types, have=c['have'], asked=c['ask'])
        key = {t: ('gp' if t == 'rv' and c['gp'] else t) for t in types}
        require(log == [key[t] for t in made], "figures drawn", got=log, expected=[key[t] for t in made])
        status = driver.load_status(stat)
        names = dict(rv='sys_rv_multipanel.pdf', corner='sys_corner.pdf', auto='sys_auto.pdf', trend='sys_trends.pdf', derived='sys_corner_derived_pars.pdf')
        for t in made:
            require(len(recs[key[t]].calls) == 1, "a figure is made once", type=t)
            a = recs[key[t]].calls[0]
            a = dict(a, **(a.pop('kwargs', None) or {}))
            path = os.path.join(out, names[t])
            if t == 'rv':
                kw = dict(c['kw'] or {})
                path = kw.pop('saveplot', path)
                for k, v in kw.items():
                    require(a[k] == v, "an option of --plotkw does not reach the figure", option=k, got=a.get(k), expected=v)
                require(a['epoch'] == C['bjd0'], "epoch of the times", got=a['epoch'], expected=C['bjd0'])
                require((dict(a['uparams']) if a['uparams'] is not None else None) == unc, "uncertainties of the run", got=a['uparams'], expected=unc)
                st_ = a.get('status')
                require(st_ is not None and st_.get('fit', 'postfile') == pf, "status of the run")
            if t in ('rv', 'corner', 'trend'):
                close(float(a['post'].params[first].value), float(post.params[first].value), rtol=0, atol=0, msg="posterior of a figure", type=t)
            if t in ('corner', 'trend'):
                want = 100.0 * c['have'].index(use)
                require(list(a['chains'][first]) == [want, want + 1, want + 2, want + 3], "the chains plotted are those of another sampler", type=t,
                        got=list(a['chains'][first]), use=use)
            if t == 'trend':
                require((a['nwalkers'], a['nensembles']) == (c['nw'], c['ne']), "walkers and ensembles of the run", got=(a['nwalkers'], a['nensembles']))
            if t == 'auto':
                require(list(a['auto']['autosamples']) == [10, 20, 30], "autocorrelation of the run")
            if t == 'derived':
                require(list(a['chains']['mpsini1']) == [0.0, 7.0, 14.0, 21.0, 28.0], "derived chains plotted")
                require(a['P'].nplanets == len(C['orbits']), "system of the derived parameters")
            outfile = a.get('saveplot', a.get('outfile'))
            require(outfile is not None and os.path.abspath(outfile) == os.path.abspath(path), "file of a figure", type=t, got=outfile, expected=path)
            require(status.has_option('plot', t + '_plot') and os.path.abspath(status.get('plot', t + '_plot')) == os.path.abspath(path), "file recorded for a figure",
                    type=t, expected=path)
        for t in set(types) - set(made):
            require(not status.has_option('plot', t + '_plot'), "a figure is recorded that was not drawn", type=t)
    ctx.nontrivial(len(made) > 1 or bool(made and (c['kw'] or c['ask'])))
    ctx.label(*(['refused'] if refused else made))


SUBCHECKS = [Sub("derive", derive_case(), check_derive, quick=250, thorough=5000),
             Sub("summaries", post_case(), check_post, quick=200, thorough=3000),
             Sub("options", option_case(), check_options, quick=400, thorough=8000),
             Sub("plots", plots_case(), check_plots, quick=150, thorough=4000)]
