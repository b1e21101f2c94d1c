"""C18: MCMC chains pair each sample with its posterior value; saved chains are continued."""
import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen
from vlib.core import Sub, close, fail, require
from checks import C17

PROPERTY = "C18"
RULE = ("a history of 1-4 short MCMC runs (saved, resumed, resumed into the file being read, thinned, with and without burn-in and early "
        "stop, refused for a wrong size) over one generated posterior; non-trivial: a chain was returned in which some walker moved")


@st.composite
def history(draw, kernels, kinds, serial=True):
    c = draw(C17.case(kernels, kinds, maxfree=4))
    c['verbose'] = False
    runs = []
    for i in range(draw(st.integers(1, 4 if serial else 2))):
        ci = draw(st.sampled_from([1, 2, 3, 5, 6]) if serial else st.sampled_from([3, 6]))
        runs.append(dict(checkinterval=ci, nrun=draw(st.integers(1, 24) if serial else st.integers(3, 12)),
                         save=draw(st.sampled_from([None, 'A', 'A', 'B', 'A'])),
                         proceed=draw(st.sampled_from([None, 'A', 'A', 'B', 'A'])),
                         thin=draw(st.sampled_from([1, 1, 1, 2, 3, 7])),
                         mode=draw(st.sampled_from(['run', 'run', 'run', 'burn', 'burnA', 'mix', 'mixburn', 'mixlate'])),
                         wrong=draw(st.sampled_from([None] * 9 + ['ensembles', 'walkers', 'params', 'nosave', 'noproceed'])),
                         fewwalkers=draw(st.booleans())))
    return dict(fit=c, runs=runs, ensembles=draw(st.integers(1, 3)), walkers=draw(st.integers(2, 3)), serial=serial, mirror=draw(st.booleans()))


NEVER = float('nan')      # never reached
MODES = dict(run=dict(burnGR=-1.0, burnAfactor=NEVER, minAfactor=NEVER),
             burn=dict(burnGR=1e9, burnAfactor=NEVER, minAfactor=NEVER, minpercent=0),
             burnA=dict(burnGR=-1.0, burnAfactor=-1e9, minAfactor=NEVER, minpercent=0),
             mix=dict(burnGR=-1.0, burnAfactor=NEVER, minAfactor=-1e9, maxArchange=1e9, maxGR=1e9, minTz=-10, minpercent=0),
             mixburn=dict(burnGR=1e9, burnAfactor=NEVER, minAfactor=-1e9, maxArchange=1e9, maxGR=1e9, minTz=-10, minpercent=0),
             mixlate=dict(burnGR=1e9, burnAfactor=NEVER, minAfactor=-1e9, maxArchange=1e9, maxGR=1e9, minTz=-10, minpercent=60, minsteps=0))


def chains(path, k):
    with h5py.File(path, 'r') as h:
        n = len([x for x in h.keys() if x.endswith('_chain')])
        require(n == k, "the file of raw chains does not hold every ensemble", got=n, ensembles=k)
        return ([h['%d_chain' % i][()] for i in range(k)], [h['%d_log_prob' % i][()] for i in range(k)],
                float(h['burned'][0]) != 0)


def accepted(path, k, chain):
    """The numbers of accepted steps belong to the chains: every visible move was accepted, and at most the one into the first sample is not visible."""
    with h5py.File(path, 'r') as h:
        for i in range(k):
            a = h['%d_accepted' % i][()]
            moves = np.sum(np.any(np.diff(chain[i], axis=0) != 0, axis=2), axis=0)
            require(len(a) == len(moves) and np.all(moves <= a) and np.all(a <= moves + 1), "accepted steps of the saved chain are not those of the chain", ensemble=i,
                    accepted=a, moves=moves)


def continues(old, new):
    """Could the ensemble `new` be one stretch-move step after the ensemble `old`?  At least one walker stayed, or moved on the line
    through another walker."""
    if np.any(np.all(old == new, axis=1)):
        return True
    if old.shape[1] == 1:
        return None
    s = np.std(old, axis=0) + 1e-300
    o, n = old / s, new / s
    for j in range(len(o)):
        for pos in (o, n):
            for k in range(len(o)):
                if k == j:
                    continue
                d0, d1 = o[j] - pos[k], n[j] - pos[k]
                a = np.argmax(np.abs(d0))
                if d0[a] == 0:
                    continue
                z = d1[a] / d0[a]
                if 0.4 < z < 2.1 and np.all(np.abs(d1 - z * d0) < 1e-6 * (1 + np.abs(d0))):
                    return True
    return False


def check(c, ctx):
    c['fit']['cons'] = list(c['fit']['cons'])
    post, vals, cur, free = C17.prepare(c['fit'])
    ref, _, _, _ = C17.prepare(c['fit'])
    extra = []
    for i, o in enumerate(c['fit']['conf']['orbits']):
        extra.append(i + 1)
    post.priors.append(radvel.prior.EccentricityPrior(extra, 0.9))
    ref.priors.append(radvel.prior.EccentricityPrior(extra, 0.9))
    cc = c['fit']['conf']
    lin = {'gamma_' + i['name'] for i in cc['insts'] if i['linear']}
    # a jitter may as well be negative
    for n in [n for n in free if n.startswith('jit') and c['mirror']]:
        if all(isinstance(q, radvel.prior.HardBounds) for q in ref.priors if getattr(q, 'param', None) == n):
            for p in (post, ref):
                p.priors = [radvel.prior.HardBounds(n, -q.maxval, -q.minval) if getattr(q, 'param', None) == n else q for q in p.priors]
                p.params[n].value = -cur[n]
                p.vector.vector[p.vector.indices[n]][0] = -cur[n]
            cur[n] = -cur[n]
            ctx.label('negative jitter')
    flags = [(k, p.vary, p.linear) for k, p in post.params.items()]
    prior_state = [{k: repr(v) for k, v in vars(p).items()} for p in post.priors]
    ndim = len(free)
    d = tempfile.mkdtemp()
    saved = {}          # slot -> (chains, logs, burned, ensembles, walkers)
    moved = False
    with C17.quiet():
        post.logprob()
        start = {k: float(p.value) for k, p in post.params.items()}
        for r in c['runs']:
            ens, walk = c['ensembles'], c['walkers'] * ndim
            kw = dict(nwalkers=walk, nrun=r['nrun'], ensembles=ens, checkinterval=r['checkinterval'], thin=r['thin'],
                      serial=c['serial'], headless=True, **MODES[r['mode']])
            if r['fewwalkers'] and c['walkers'] == 2:
                kw['nwalkers'] = 1                   # raised to 2 per free parameter
            pro = r['proceed'] if r['proceed'] in saved else None
            if r['save']:
                kw.update(save=True, savename=os.path.join(d, r['save'] + '.h5'))
            if pro:
                kw.update(proceed=True, proceedname=os.path.join(d, pro + '.h5'))
            wrong = r['wrong']
            p = post
            if wrong == 'nosave':
                kw.update(save=True, savename=None)
            elif wrong == 'noproceed':
                kw.update(proceed=True, proceedname=None)
            elif wrong and not pro:
                wrong = None
            elif wrong == 'ensembles':
                kw['ensembles'] = ens + 1
            elif wrong == 'walkers':
                kw['nwalkers'] = walk + 2
            elif wrong == 'params':
                if ndim < 2:
                    wrong = None
                else:
                    kw['nwalkers'] = walk
                    p = C17.prepare(dict(c['fit'], maxfree=ndim - 1))[0]
            if wrong:
                before = {s: chains(os.path.join(d, s + '.h5'), ens) for s in saved}
                try:
                    radvel.mcmc(p, **kw)
                except ValueError:
                    pass
                else:
                    fail("a run that cannot be done as asked was done", wrong=wrong)
                for s in saved:
                    now = chains(os.path.join(d, s + '.h5'), ens)
                    require(all(np.array_equal(a, b, equal_nan=True) for x, y in zip(before[s][:2], now[:2]) for a, b in zip(x, y)),
                            "a refused run changed the saved chains", wrong=wrong)
                ctx.label('refused ' + wrong)
                continue
            df = radvel.mcmc(post, **kw)
            # ---- what the rows are
            require(list(df.columns) == free + ['lnprobability'], "columns of the chain", got=list(df.columns), want=free)
            rounds = max(1, int(np.round(r['nrun'] / r['checkinterval'])))
            new = rounds * r['checkinterval']
            pre = saved[pro][0][0].shape[0] if pro else 0
            one = lambda n: -(-n * walk * ens // r['thin'])
            fixed_length = r['mode'] == 'run'
            if fixed_length:
                require(len(df) == one(pre + new), "number of samples", got=len(df), want=one(pre + new), run=r)
            else:
                require(one(r['checkinterval']) <= len(df) <= one(pre + new), "number of samples", got=len(df), most=one(pre + new), run=r)
            x = df[free].to_numpy()
            lp = df['lnprobability'].to_numpy()
            idx = np.unique(np.linspace(0, len(df) - 1, 60).astype(int))
            for n, i in enumerate(idx):
                ref.set_vary_params(x[i])
                want = ref.logprob()
                close(lp[i], want, rtol=1e-9, atol=1e-9 * (1 + abs(want)) if np.isfinite(want) else 0,
                      msg="a sample's lnprobability is not that of its values", row=int(i), run=r)
                if n % 20 == 0 and np.isfinite(want):
                    v = dict(cur)
                    v.update(dict(zip(free, x[i])))
                    if all(0 <= o['e'] <= 0.99 for o in C17.orbits(cc, v)):
                        ll = conf.ref_loglike(cc, v)
                        pr = sum(q(ref.params, ref.vector) for q in ref.priors)
                        close(lp[i], ll + pr, rtol=0, atol=conf.ll_tol(cc, v) + 1e-9 * (1 + abs(pr)),
                              msg="a sample's lnprobability against the reference model", row=int(i), run=r)
            if np.any(x != x[0]):
                moved = True
            # ---- saved chains
            if r['save']:
                ch, lg, burned = chains(os.path.join(d, r['save'] + '.h5'), ens)
                accepted(os.path.join(d, r['save'] + '.h5'), ens, ch)
                for a, b in zip(ch, lg):
                    require(a.shape[1:] == (walk, ndim) and b.shape == a.shape[:2], "shape of the saved chain", got=a.shape, lnprob=b.shape)
                rows = np.vstack([np.hstack([a.reshape(-1, ndim), b.reshape(-1, 1)]) for a, b in zip(ch, lg)])
                got = df.to_numpy()
                if r['thin'] == 1:
                    require(sorted(map(tuple, rows)) == sorted(map(tuple, got)), "the saved chains are not the samples returned", run=r)
                else:
                    require(set(map(tuple, got)) <= set(map(tuple, rows)) and one(len(ch[0])) == len(got),
                            "the samples returned are not those saved", run=r)
                if pro and (fixed_length or r['mode'] == 'mix' or saved[pro][2]):
                    for a, b, o, ol in zip(ch, lg, saved[pro][0], saved[pro][1]):
                        require(np.array_equal(a[:len(o)], o) and np.array_equal(b[:len(o)], ol),
                                "the resumed chain does not begin with the saved one", run=r)
                        require(len(a) > len(o), "the resumed run added nothing", run=r)
                        if len(a) > len(o):
                            require(continues(o[-1], a[len(o)]) is not False, "the resumed chain does not go on where the saved one ended", run=r)
                    require(not saved[pro][2] or burned, "resuming forgot that the burn-in is over", run=r)
                    ctx.label('resumed')
                elif pro:
                    ctx.label('resumed, burned in')
                    if len(ch[0]) == pre + new and not burned and r['mode'] == 'burn':
                        # it may only have been left out if the criterion was never met
                        from checks.C19 import statistics
                        for k in range(1, rounds):
                            gr = statistics([a[:pre + k * r['checkinterval']].T for a in ch])[0]
                            require(not np.all(gr < 1e6), "the resumed run skipped the burn-in", gr=gr, run=r)
                for a in ch:
                    ok = [continues(a[i], a[i + 1]) is not False for i in range(len(a) - 1)][:30]
                    require(all(ok), "consecutive samples of the chain are not consecutive steps", at=ok.index(False) if False in ok else None, run=r)
                saved[r['save']] = (ch, lg, burned)
            elif pro and r['thin'] == 1 and (fixed_length or r['mode'] == 'mix' or saved[pro][2]):
                have = set(map(tuple, x))
                for o in saved[pro][0]:
                    require(set(map(tuple, o.reshape(-1, ndim))) <= have, "the resumed run lost saved samples", run=r)
                ctx.label('resumed')
            # ---- the posterior
            require([(k, q.vary, q.linear) for k, q in post.params.items()] == flags, "sampling changed flags")
            require([{k: repr(v) for k, v in vars(q).items()} for q in post.priors] == prior_state, "sampling changed the priors")
            for k, q in post.params.items():
                if k not in lin:
                    require(float(q.value) == start[k] == post.vector.vector[post.vector.indices[k]][0], "sampling moved the posterior",
                            name=k, was=start[k], now=float(q.value), free=k in free)
            require(post.name_vary_params() == free, "sampling changed the free parameters")
            ctx.label(r['mode'])
    ctx.nontrivial(moved)


RV = ('rv', 'rv', 'decorr')
SUBCHECKS = [Sub("histories", history((), RV), check, quick=400, thorough=6000, weight=4, budget=35),
             Sub("histories_gp", history(('QuasiPer', 'SqExp', 'Per'), ('rv', 'decorr', 'gp')), check, quick=250, thorough=4000, weight=4, budget=35),
             Sub("histories_celerite", history(('Celerite',), ('rv', 'gp')), check, quick=250, thorough=4000, weight=4, budget=35),
             Sub("parallel", history(('QuasiPer',), ('rv', 'rv', 'gp'), serial=False), check, quick=30, thorough=600, weight=5, budget=40)]
