"""C19: convergence diagnostics are the textbook statistics, and decide burn-in and the end of a run."""
import importlib
import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen
from vlib.core import Sub, close, fail, require
from checks import C17

M = importlib.import_module('radvel.mcmc')
PROPERTY = "C19"
RULE = ("statistics of generated chains (autoregressive, drifting, offset, stuck) against direct definitions; complete short MCMC runs whose "
        "burn-in and end are predicted from their own stored chains; non-trivial: at least two chains or a run whose end or burn-in was decided "
        "by a statistic")


# ---------------------------------------------------------------- definitions

def autocorr_time(x):
    """x: (steps, walkers).  Sokal's windowed estimate with c = 5 of the walkers' mean autocorrelation function."""
    n = x.shape[0]
    f = np.zeros(n)
    for w in range(x.shape[1]):
        d = x[:, w] - x[:, w].mean()
        a = np.correlate(d, d, 'full')[n - 1:]
        f += a / a[0]
    f /= x.shape[1]
    tau = 2 * np.cumsum(f) - 1
    gap = 1.0                  # how close the choice of the window was
    for m in range(n):
        gap = min(gap, abs(m - 5 * tau[m]))
        if m >= 5 * tau[m]:
            return tau[m], min(gap, abs(tau[m]))
    return tau[n - 1], min(gap, abs(tau[n - 1]))


def statistics(chains):
    """chains: list over ensembles of (parameters, walkers, steps)."""
    npar = chains[0].shape[0]
    m = len(chains)
    L = chains[0][0].size
    gr, tz, tau, clear = [], [], [], 1.0
    for p in range(npar):
        cs = [c[p].ravel() for c in chains]
        means = np.array([c.mean() for c in cs])
        W = np.mean([np.mean((c - c.mean()) ** 2) for c in cs])
        B = L / (m - 1) * np.sum((means - means.mean()) ** 2) if m > 1 else 0.0
        var = (L - 1) / L * W + B / L
        gr.append(np.sqrt(var / W) if W > 0 else np.nan)
        if m > 1:
            tz.append(m * L * min(var / B, 1.0) if B > 0 else (m * L if var > 0 else np.nan))
        t, cl = autocorr_time(np.vstack([c[p].T for c in chains]))
        tau.append(t)
        clear = min(clear, cl)
    return np.array(gr), (np.array(tz) if m > 1 else None), np.array(tau), clear


# ---------------------------------------------------------------- statistics of arbitrary chains

@st.composite
def chainset(draw):
    npar, m = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    walkers, steps = draw(st.integers(1, 6)), draw(st.sampled_from([1, 2, 3, 5, 8, 13, 20, 33, 50]))
    return dict(npar=npar, m=m, walkers=walkers, steps=steps, seed=draw(st.integers(0, 2 ** 31)),
                rho=[draw(st.sampled_from([0.0, 0.3, 0.9, 0.99, -0.5])) for _ in range(npar)],
                offset=[draw(st.sampled_from([0.0, 0.0, 0.1, 1.0, 10.0])) for _ in range(npar)],
                drift=[draw(st.sampled_from([0.0, 0.0, 0.02, 1.0])) for _ in range(npar)],
                stuck=[draw(st.sampled_from([False] * 9 + [True])) for _ in range(npar)],
                loc=[draw(gen.fl(-100, 100)) for _ in range(npar)], scale=[draw(st.sampled_from([1e-4, 1.0, 3.0, 1e4])) for _ in range(npar)],
                perm=draw(st.randoms(use_true_random=False)).sample(range(m), m),
                old=draw(st.one_of(st.just(0.0), gen.fl(0.5, 20))),
                thr=[draw(st.sampled_from([-1, 1, 1, 1])) for _ in range(4)], margin=draw(st.sampled_from([1e-3, 0.1, 1.0])))


def make(c):
    rng = np.random.RandomState(c['seed'])
    out = []
    for e in range(c['m']):
        a = np.zeros((c['npar'], c['walkers'], c['steps']))
        for p in range(c['npar']):
            if not c['stuck'][p]:
                x = rng.randn(c['walkers'])
                for s in range(c['steps']):
                    x = c['rho'][p] * x + np.sqrt(1 - c['rho'][p] ** 2) * rng.randn(c['walkers'])
                    a[p, :, s] = x + c['drift'][p] * s
                a[p] += c['offset'][p] * rng.randn()
        out.append(a)
    return out


def calc(chains, old, minAfactor=1.0, maxArchange=1.0, minTz=1.0, maxGR=2.0):
    return M.convergence_calculate([c.copy() for c in chains], oldautocorrelation=old, minAfactor=minAfactor,
                                   maxArchange=maxArchange, minTz=minTz, maxGR=maxGR)


def check_stats(c, ctx):
    ch = make(c)
    keep = [a.copy() for a in ch]
    total = c['walkers'] * c['steps']
    if total < 2:
        try:
            with C17.quiet():
                calc(ch, 0.0)
        except Exception as e:                      # noqa: the kind of refusal is not specified
            ctx.label('refused')
            return
        fail("chains of a single sample have no statistics, but were accepted")
    with C17.quiet():
        lst = list(ch)
        mixed, af, ar, tau, gr, tz = M.convergence_calculate(lst, oldautocorrelation=c['old'], minAfactor=1.0, maxArchange=1.0, minTz=1.0, maxGR=2.0)
        require(all(a is b for a, b in zip(lst, ch)) and all(np.array_equal(a, b) for a, b in zip(ch, keep)), "the chains given were modified")
        rgr, rtz, rtau, clear = statistics(ch)
        stuck = np.array(c['stuck'])
        if stuck.any():
            require(not mixed, "chains in which a parameter never moved are not well mixed")
            ctx.label('stuck')
        ok = ~stuck
        close(np.asarray(gr)[ok], rgr[ok], rtol=1e-9, msg="Gelman-Rubin statistic")
        if c['m'] > 1:
            require(np.size(tz) == c['npar'], "one Tz per parameter", got=tz)
            close(np.asarray(tz)[ok], rtz[ok], rtol=1e-7, msg="Tz")
        if c['steps'] * c['m'] == 1:
            require(not mixed, "a single step has no autocorrelation time, but is declared well mixed")
        elif clear > 1e-6:
            close(np.asarray(tau)[ok], rtau[ok], rtol=1e-7, atol=1e-7, msg="autocorrelation time")
            n = c['steps'] * c['m']
            close(np.asarray(af)[ok], (n / np.asarray(tau))[ok], rtol=1e-9, msg="autocorrelation factor")
            with np.errstate(all='ignore'):
                want = np.abs(np.asarray(tau) - c['old']) / c['old']
            ok = ok & ~np.isnan(want)
            close(np.asarray(ar)[ok], want[ok], rtol=1e-9, msg="relative change of the autocorrelation time")
        # invariance
        if not stuck.any():
            perm = calc([ch[i] for i in c['perm']], c['old'])
            close(perm[4], gr, rtol=1e-9, msg="Gelman-Rubin depends on the order of the chains")
            if c['m'] > 1:
                close(perm[5], tz, rtol=1e-7, msg="Tz depends on the order of the chains")
            tr = [a * np.array(c['scale'])[:, None, None] + np.array(c['loc'])[:, None, None] for a in ch]
            s = calc(tr, c['old'])
            rel = 1e-6 * (1 + np.max([abs(l) / sc for l, sc in zip(c['loc'], c['scale'])]))
            close(s[4], gr, rtol=min(rel, 1e-2), msg="Gelman-Rubin depends on the parameter's unit or zero point")
            if c['m'] > 1 and rel < 1e-3:
                close(s[5], tz, rtol=1e-4 + 100 * rel, msg="Tz depends on the parameter's unit or zero point")
            # the declaration
            st4 = [np.min(tz), np.max(gr), np.amin(af), np.amax(ar)]
            if c['m'] == 1:
                st4[0] = 0.0                           # there is none: any threshold will do
            if np.all(np.isfinite(st4[:3])):
                k = c['margin']
                thr = [st4[0] - c['thr'][0] * k * (1 + abs(st4[0])), st4[1] + c['thr'][1] * k * (1 + abs(st4[1])),
                       st4[2] - c['thr'][2] * k * (1 + abs(st4[2])), st4[3] + c['thr'][3] * k * (1 + abs(st4[3])) if np.isfinite(st4[3]) else 1e9]
                want = all(t > 0 for t in c['thr'][c['m'] == 1:3]) and (c['thr'][3] > 0 if np.isfinite(st4[3]) else False)
                got = calc(ch, c['old'], minTz=thr[0], maxGR=thr[1], minAfactor=thr[2], maxArchange=thr[3])[0]
                require(bool(got) == want, "well-mixed is declared exactly when every threshold is met", statistics=st4, thresholds=thr, got=bool(got))
                ctx.label('mixed' if want else 'not mixed')
    ctx.nontrivial(c['m'] > 1 and not stuck.all())
    ctx.label('%d chains' % c['m'])


# ---------------------------------------------------------------- runs: burn-in and end

@st.composite
def runcase(draw):
    c = draw(C17.case((), ('rv',), maxfree=3))
    c['verbose'] = False
    return dict(fit=c, ensembles=draw(st.integers(1, 4)), walkers=draw(st.integers(2, 3)), ci=draw(st.sampled_from([3, 5, 8, 10, 12, 15])),
                rounds=draw(st.integers(3, 9)), seed=draw(st.integers(0, 2 ** 31)),
                burn=draw(st.sampled_from(['none', 'gr', 'af'])), burn_at=draw(st.integers(0, 6)),
                mix=[draw(st.one_of(st.none(), st.integers(0, 7))) for _ in range(4)], never=draw(st.sampled_from([False, False, False, True])),
                pattern=draw(st.sampled_from([False, True])), which=draw(st.integers(0, 100)),
                minpercent=draw(st.sampled_from([0, 0, 5, 30, 60])), minsteps=draw(st.sampled_from([0, 7, 15, 1000])),
                singleTz=draw(st.sampled_from([-10, 0, 3.5, 1000])), exact=draw(st.sampled_from([None, None, None, [4, 25], [4, 50], [8, 25], [8, 50]])))


def run(c, post, path, **kw):
    np.random.seed(c['seed'])
    nd = len(post.get_vary_params())
    scale = post.vector.vector[:, 2].copy()
    df = radvel.mcmc(post, nwalkers=c['walkers'] * nd, nrun=c['ci'] * c['rounds'], ensembles=c['ensembles'], checkinterval=c['ci'], serial=True,
                     headless=True, save=True, savename=path, **kw)
    with h5py.File(path, 'r') as h:
        return df, [h['%d_chain' % i][()] for i in range(c['ensembles'])], float(h['burned'][0])


def check_run(c, ctx):
    if c['exact']:
        # the share of the steps that opens the checks is reached exactly
        c = dict(c, rounds=c['exact'][0], minpercent=c['exact'][1], minsteps=1000, mix=[None] * 4, pattern=False, burn='none', never=False)
    d = tempfile.mkdtemp()
    never = dict(burnGR=-1.0, burnAfactor=float('nan'), minAfactor=float('nan'))
    with C17.quiet():
        post, _, _, free = C17.prepare(c['fit'])
        post.priors.append(radvel.prior.EccentricityPrior(len(c['fit']['conf']['orbits']), 0.9))
        run(c, post, os.path.join(d, 'x.h5'), **never)               # sets the step sizes
        df, full, _ = run(c, post, os.path.join(d, 'a.h5'), **never)
        R, ci, ens = c['rounds'], c['ci'], c['ensembles']
        nd = len(free)
        require(full[0].shape[0] == R * ci, "number of steps", got=full[0].shape[0], want=R * ci)
        walk = c['walkers'] * nd

        def at(lo, hi):                                    # statistics of the steps lo..hi
            return statistics([a[lo:hi].T for a in full])
        gate = [not (r * ci * walk * ens / (R * ci * walk * ens) * 100 < c['minpercent'] and r * ci * walk <= c['minsteps'] * walk)
                for r in range(1, R + 1)]
        st0 = [at(0, r * ci) for r in range(1, R + 1)]
        if any(np.any(~np.isfinite(s[2])) or s[3] < 1e-6 or np.any(~np.isfinite(s[0])) or np.any(s[2] == 0) for s in st0):
            ctx.label('stuck chains')
            return
        burnGR, burnAf = -1.0, float('nan')
        k = c['burn_at'] % R
        if c['burn'] == 'gr':
            burnGR = float(np.max(st0[k][0])) * (1 + 1e-7)
        elif c['burn'] == 'af':
            burnAf = float(np.min((k + 1) * ci * ens / st0[k][2]))
            burnAf -= 1e-7 * abs(burnAf)
        # thresholds at the statistics of chosen rounds
        th = dict(maxGR=1e9, minTz=-10.0, minAfactor=-1e12, maxArchange=1e12)
        for name, r in zip(th, c['mix']):
            if r is None:
                continue
            s, prev = st0[r % R], st0[(r - 1) % R]
            v = dict(maxGR=np.max(s[0]), minTz=np.min(s[1]) if s[1] is not None else -10, minAfactor=np.min((r % R + 1) * ci * ens / s[2]),
                     maxArchange=np.max(np.abs(s[2] - prev[2]) / prev[2]))[name]
            v = float(v)
            th[name] = v + (1e-7 if name.startswith('max') else -1e-7) * (1 + abs(v))
        if ens == 1:
            th['minTz'] = c['singleTz']
        if c['pattern']:
            # one statistic, with a threshold at which the checks pass, fail and pass again before two in a row pass
            seq = dict(maxGR=[np.max(s[0]) for s in st0], minTz=[np.min(s[1]) if s[1] is not None else -10 for s in st0],
                       minAfactor=[np.min((r + 1) * ci * ens / s[2]) for r, s in enumerate(st0)],
                       maxArchange=[np.inf] + [np.max(np.abs(b[2] - a[2]) / a[2]) for a, b in zip(st0, st0[1:])])
            found = []
            for name, v in seq.items():
                for x in v:
                    if not np.isfinite(x):
                        continue
                    x = float(x) + (1e-7 if name.startswith('max') else -1e-7) * (1 + abs(float(x)))
                    ok = [a < x if name.startswith('max') else a > x for a in v]
                    two = [r for r in range(1, R) if ok[r] and ok[r - 1]]
                    if sum(ok[:two[0] if two else R]) >= 2:
                        found.append((name, x))
            if found:
                burnGR, burnAf = -1.0, float('nan')
                th = dict(maxGR=1e9, minTz=-10.0, minAfactor=-1e12, maxArchange=1e12)
                name, x = found[c['which'] % len(found)]
                th[name] = x
                if ens == 1:
                    th['minTz'] = c['singleTz']
                c = dict(c, minpercent=0, minsteps=0, never=False)
                ctx.label('passes, fails, passes')
        if c['never']:
            th['maxGR'] = -1.0
        # prediction
        lo, old, burned, mixcount, stop, reason = 0, np.zeros(nd), False, 0, R, 'length'
        burn_round = None
        for r in range(1, R + 1):
            done = (burn_round or 0) * ci * walk * ens + (r * ci - lo) * walk * ens
            mixed = False
            maxgr, minaf = np.inf, -1.0
            if not (done / (R * ci * walk * ens) * 100 < c['minpercent'] and (r * ci - lo) * walk <= c['minsteps'] * walk):
                gr, tz, tau, clear = at(lo, r * ci)
                with np.errstate(all='ignore'):
                    ar = np.abs(tau - old) / old
                old = tau
                maxgr, minaf = np.max(gr), np.min((r * ci - lo) * ens / tau)
                vals = [(maxgr, th['maxGR']), (minaf, th['minAfactor']), (np.max(ar), th['maxArchange'])] + \
                    ([(np.min(tz), th['minTz'])] if tz is not None else [])
                near = any(np.isfinite(a) and abs(a - b) < 1e-9 * (1 + abs(b)) for a, b in vals + [(maxgr, burnGR), (minaf, burnAf)])
                if near or clear < 1e-6 or not np.all(np.isfinite(tau)) or not np.all(np.isfinite(gr)) or np.any(tau == 0):
                    ctx.label('too close to a threshold')
                    return
                mixed = bool(maxgr < th['maxGR'] and minaf > th['minAfactor'] and np.max(ar) < th['maxArchange']
                             and (tz is None or np.min(tz) > th['minTz']))
                mixcount = mixcount + 1 if mixed else 0
            start = lo
            if not burned and (maxgr <= burnGR or burnAf <= minaf):
                burned, burn_round, lo = True, r, r * ci
            if mixcount >= 2:
                stop, reason = r, 'mixed'
                break
        # what is returned are the steps since the burn-in, which itself is returned only if the run ends with it
        want = [a[start:stop * ci] for a in full]
        df2, got, hb = run(c, post, os.path.join(d, 'b.h5'), burnGR=burnGR, burnAfactor=burnAf, minpercent=c['minpercent'], minsteps=c['minsteps'], **th)
        info = dict(stop=stop, rounds=R, interval=ci, burned_at=burn_round, thresholds=th, burnGR=burnGR, burnAfactor=burnAf)
        require(all(a.shape == b.shape for a, b in zip(got, want)), "the run does not end, or its burn-in does not end, where its statistics say",
                got=got[0].shape, want=want[0].shape, **info)
        require(all(np.array_equal(a, b) for a, b in zip(got, want)), "the samples kept are not those after the burn-in", **info)
        require(len(df2) == sum(a.shape[0] * a.shape[1] for a in want), "number of samples returned", got=len(df2), **info)
    ctx.nontrivial(reason == 'mixed' or burned)
    ctx.label(reason, 'burned' if burned else 'no burn-in')


SUBCHECKS = [Sub("statistics", chainset(), check_stats, quick=1500, thorough=40000, budget=40),
             Sub("runs", runcase(), check_run, quick=180, thorough=5000, budget=50, weight=3)]
