"""C30: figures show the data, models and samples they are given, and change nothing."""
import copy
import math
import os
import re
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st
import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as pl
from matplotlib.figure import Figure
from matplotlib.mathtext import MathTextParser
from matplotlib.offsetbox import AnchoredText
import corner

import radvel
from radvel.plot import mcmc_plots, orbit_plots
from vlib import conf, gen, rvx
from vlib.core import Sub, close, fail, require
from vlib.swap import everywhere
from checks import C15, C22, C28

PROPERTY = "C30"
RULE = ("posteriors of 1-3 planets in any basis with 1-3 instruments (plain, decorrelated, linear offset, GP), trends, near and far epochs, any plotting options, "
        "panels drawn whole or one by one and repeatedly; chains of any shape; non-trivial: several observations with a model that is not zero")
ASSUMPTIONS = ["parameter dictionary and vector of the posterior agree", "the numbers of ensembles, walkers and thinning divide the length of a chain"]


@st.composite
def derived_case(draw, npl):
    """Derived parameters stored with a posterior: none, with the chains of the status file, or with the uncertainties alone."""
    if draw(st.booleans()):
        return None
    return dict(how=draw(st.sampled_from(['status', 'status', 'api'])), n=draw(st.integers(5, 40)), seed=draw(st.integers(0, 10 ** 6)),
                mass=draw(st.lists(st.one_of(gen.logu(0.3, 5000), gen.fl(80, 120)), min_size=npl, max_size=npl)),
                rel=draw(st.lists(st.sampled_from([0.0, 0.01, 0.1, 0.3]), min_size=npl, max_size=npl)))


def derive(d, npl):
    """Chains of the derived parameters, and their quantiles."""
    rng = np.random.RandomState(d['seed'])
    ch = pd.DataFrame()
    for i in range(1, npl + 1):
        ch['mpsini%d' % i] = d['mass'][i - 1] * np.abs(1 + d['rel'][i - 1] * rng.standard_normal(d['n']))
        ch['a%d' % i] = 0.1 * i + 0.001 * rng.standard_normal(d['n'])
        ch['musini%d' % i] = ch['mpsini%d' % i] * 3e-6
        if i == 1:
            ch['rhop1'] = 1 + rng.random_sample(d['n'])
    return ch


@st.composite
def plot_case(draw, gp=False):
    kinds = ('gp',) if gp == 'only' else ('rv', 'decorr', 'gp') if gp else ('rv', 'rv', 'decorr')
    c = draw(conf.config(max_planets=3, max_inst=3, kinds=kinds, custom=False, nmin=2, nmax=draw(st.sampled_from([7, 7, 25])), kernels=('QuasiPer', 'SqExp', 'Celerite'),
                         errmin=0.5))
    if gp and not any(i['kind'] == 'gp' for i in c['insts']):
        c['insts'][0] = draw(conf.instrument(c['insts'][0]['name'], ('gp',), kernels=('QuasiPer', 'SqExp'), errmin=0.5))
    near = draw(st.sampled_from([None, None, ['h', 'h1', 'hires'], ['x_y', 'x', 'A2'], ['a_b_c', 'a_b', 'j']]))
    if near:                                         # names that begin one another
        for i, n in zip(c['insts'], near):
            i['name'] = n
    if len(c['insts']) > 1 and draw(st.integers(0, 3)) == 0:
        # simultaneous observations
        a, b = c['insts'][:2]
        m = min(len(a['t']), len(b['t']))
        b['t'] = list(a['t'][:m]) + [x + 200 for x in b['t'][m:]]
    if draw(st.integers(0, 3)) == 0:
        # the last observation close to where the phases are cut
        o = c['orbits'][draw(st.integers(0, len(c['orbits']) - 1))]
        enc = rvx.encode(c['basis'], o)
        last = max(x for i in c['insts'] for x in i['t'])
        ph = (last - enc['tc' if 'tc' in enc else 'tp']) / o['per']
        o['tp'] += (ph - draw(st.sampled_from([0.5, 1.0])) - draw(gen.fl(-0.012, 0.012))) * o['per']
    off = draw(st.sampled_from([0.0, 0.0, 2455000.0]))
    if off:
        for o in c['orbits']:
            o['tp'] += off
        c['time_base'] += off
        for i in c['insts']:
            i['t'] = [x + off for x in i['t']]
    names = [i['name'] for i in c['insts']]
    fm = {}
    for n in draw(st.lists(st.sampled_from(names), max_size=2, unique=True)):
        fm[n] = dict(fmt=draw(st.sampled_from(['o', 's', 'd'])), **(dict(label='My ' + n) if draw(st.booleans()) else {}),
                     **(dict(color='teal') if draw(st.booleans()) else {}))
    c['off'] = off
    kw = dict(epoch=draw(st.sampled_from([2450000, 2450000, 2455000, 0 if off else 2450000])), nobin=draw(st.booleans()), legend=draw(st.booleans()),
              yscale_auto=draw(st.booleans()), yscale_sigma=draw(st.sampled_from([3.0, 1.0])), telfmts=fm)
    if draw(st.integers(0, 3)) == 0:
        kw['phase_limits'] = [-0.25, 0.75]
    if draw(st.integers(0, 3)) == 0:
        kw['set_xlim'] = [10.0, 60.0] if not off else [off - (kw['epoch'] or 2450000) - 5.0, off - (kw['epoch'] or 2450000) + 80.0]
    if draw(st.integers(0, 3)) == 0:
        kw['phase_ncols'] = 2
    if gp:
        kw.update(subtract_gp_mean_model=draw(st.booleans()), plot_likelihoods_separately=draw(st.integers(0, 2)) == 0, subtract_orbit_model=draw(st.booleans()),
                  separate_orbit_gp=draw(st.booleans()))
    else:
        kw.update(highlight_last=draw(st.booleans()), show_rms=draw(st.booleans()))
    order = draw(st.lists(st.sampled_from(['timeseries', 'residuals', 'phase', 'multi', 'timeseries']), min_size=1, max_size=4))
    while order.count('multi') > 1:
        order.remove('multi')
    return dict(c=c, kw=kw, order=order, nophase=draw(st.integers(0, 3)) == 0, save=draw(st.integers(0, 4)) == 0, unc=draw(st.sampled_from([None, 'unc', 'fixed'])),
                derived=draw(derived_case(len(c['orbits']))), letters=draw(st.sampled_from([None, None, 'bcd', 'cdb', 'xyz'])),
                gp=bool(gp))


class Truth(object):
    """What a posterior's figure has to show, from plain numbers."""

    def __init__(self, case, post, vals):
        c = case['c']
        self.c = c
        self.v = conf.values_of(vals)
        self.v.setdefault('dvdt', 0.0)
        self.v.setdefault('curv', 0.0)
        self.orbits = [rvx.decode(c['basis'], {p: self.v['%s%d' % (p, i + 1)] for p in c['basis'].split()}) for i in range(len(c['orbits']))]
        self.gp = copy.deepcopy(post)
        t, res, err, tel, gpm = [], [], [], [], []
        likes = self.gp.likelihood.like_list if c['composite'] else [self.gp.likelihood]
        self.likes = {}
        for ins, like in zip(c['insts'], likes):
            r = conf.ref_instrument(c, ins, self.v)
            m = np.zeros(len(r['t']))
            if ins['kind'] == 'gp':
                m = like.predict(np.asarray(r['t'], float))[0]
            self.likes[ins['name']] = like
            t.append(r['t'])
            res.append(r['resid'] - m)
            gpm.append(m)
            err.append(np.sqrt(r['var']))
            tel += [ins['name']] * len(r['t'])
        self.t, self.res, self.err, self.gpm = (np.concatenate(x) for x in (t, res, err, gpm))
        self.tel = np.array(tel)
        self.tol = float(np.max(rvx.total_tol(self.t, self.orbits))) + 1e-8 * sum(o['k'] / (1 - min(o['e'], 0.99)) ** 2.5 for o in self.orbits) + \
            1e-7 * (1 + float(np.max(np.abs(self.res))) + float(np.max(np.abs(self.gpm))))
        for o in self.orbits:
            self.tol += 1e-9 * abs(np.max(np.abs(self.t - o['tp'])) / o['per']) * o['k'] / (1 - min(o['e'], 0.99)) ** 2.5
        if c['off']:
            for o in self.orbits:
                self.tol += 4e-9 / o['per'] * 10 * o['k'] / (1 - min(o['e'], 0.99)) ** 2.5

    def model(self, t):
        return conf.ref_model(self.c, self.v, t)

    def planet(self, i, t):
        return rvx.total_rv(np.asarray(t, float), [self.orbits[i]], 0.0, 0.0, self.c['time_base'])

    def phase(self, i, t):
        o = self.orbits[i]
        ref = self.v['tc%d' % (i + 1)] if 'tc' in self.c['basis'].split() else o['tp']
        return ((np.asarray(t, float) - ref) / o['per']) % 1.0, 3e-9 * (abs(ref) + np.max(np.abs(t))) / o['per'] * 1e-6 + 1e-9

    def epochs(self, kw):
        return [0.0, float(kw['epoch']), 2450000.0] if kw['epoch'] else [0.0, 2450000.0]


def bars(ax):
    """Error-bar series of a panel: (label, x, y, error)."""
    out = []
    for con in ax.containers:
        if not hasattr(con, 'has_yerr') or not con.has_yerr:
            continue
        line, caps, cols = con
        x, y = (np.asarray(v, float) for v in line.get_data())
        seg = np.array(cols[0].get_segments())
        if len(x) == 0:
            out.append((con.get_label(), x, y, x))
            continue
        close(seg[:, :, 0], np.column_stack([x, x]), rtol=0, atol=1e-9 * (1 + np.abs(x).max()), msg="error bars are not at the points")
        close(seg.mean(axis=1)[:, 1], y, rtol=0, atol=1e-9 * (1 + np.abs(seg).max()), msg="error bars are not centred on the points")
        out.append((con.get_label(), x, y, 0.5 * (seg[:, 1, 1] - seg[:, 0, 1])))
    return out


def pair_up(series, x, y, e, xtol, ytol, msg, **kw):
    """Every expected point is drawn exactly once, and nothing else."""
    gx, gy, ge = (np.concatenate([s[k] for s in series]) if series else np.array([]) for k in (1, 2, 3))
    require(len(gx) == len(x), msg + ": number of points", drawn=len(gx), observations=len(x), **kw)
    left = list(range(len(gx)))
    for k in range(len(x)):
        hit = [j for j in left if abs(gx[j] - x[k]) <= xtol and abs(gy[j] - y[k]) <= ytol + 1e-9 * abs(y[k]) and abs(ge[j] - e[k]) <= 1e-9 * (1 + e[k])]
        if not hit:
            j = min(left, key=lambda j: abs(gx[j] - x[k]) * 1e3 + abs(gy[j] - y[k]) + abs(ge[j] - e[k]))
            fail(msg, x=x[k], y=y[k], err=e[k], nearest=[gx[j], gy[j], ge[j]], tol=[xtol, ytol], **kw)
        left.remove(min(hit, key=lambda j: abs(gx[j] - x[k]) + abs(gy[j] - y[k])))


def by_instrument(series, tr, x, y, e, tol, msg, **kw):
    """Points of one series belong to one instrument, and are labelled as it."""
    for label, gx, gy, ge in series:
        own = None
        for n in sorted(set(tr.tel)):
            m = tr.tel == n
            if m.sum() == len(gx) and all(np.min(np.abs(x[m] - a) + np.abs(y[m] - b)) <= 2 * tol + 1e-6 for a, b in zip(gx, gy)):
                own = n
        require(own is not None, msg + ": a series is not one instrument's", label=label, **kw)


def curve(ax, pred, xtrue, msg, tol, over, **kw):
    """Some line of the panel is the curve pred(x), all over an interval."""
    worst = None
    for line in ax.get_lines():
        x, y = (np.asarray(v, float) for v in line.get_data())
        if len(x) < 200 or x.min() > over[0] + 1e-6 or x.max() < over[1] - 1e-6:
            continue
        some = np.unique(np.linspace(0, len(x) - 1, 300).astype(int))
        w = np.max(np.abs(pred(xtrue(x[some])) - y[some]))
        worst = w if worst is None else min(worst, w)
    require(worst is not None, msg + ": no curve", **kw)
    require(worst <= tol, msg, difference=worst, tol=tol, **kw)


def check_time(ax, tr, case, sep=None):
    """The time-series panel (of one likelihood, for separate panels)."""
    kw = case['kw']
    y = tr.res + tr.model(tr.t)
    if case['gp']:
        y = tr.res + (0 if kw['subtract_orbit_model'] else tr.model(tr.t)) + (0 if kw['subtract_gp_mean_model'] else tr.gpm)
    s = bars(ax)
    E = epoch_of(s, tr, kw)
    if sep is None:
        pair_up(s, tr.t - E, y, tr.err, 1e-6, tr.tol * 4, "velocities of the time series", options=kw)
        by_instrument(s, tr, tr.t - E, y, tr.err, tr.tol * 4, "velocities of the time series")
    else:
        # the panel of an instrument shows its own data corrected with its own noise model
        m = tr.tel == sep
        gx, gy, ge = (np.concatenate([q[k] for q in s]) for k in (1, 2, 3))
        pick = [j for j in range(len(gx)) if np.min(np.abs(gx[j] - (tr.t - E)[m])) < 1e-6 and np.min(np.abs(ge[j] - tr.err[m])) < 1e-9 * (1 + ge[j])]
        for k in np.flatnonzero(m):
            d = [abs(gy[j] - y[k]) for j in pick if abs(gx[j] - (tr.t[k] - E)) < 1e-6]
            require(d and min(d) <= tr.tol * 4 + 1e-9 * abs(y[k]), "velocities of an instrument in its own panel", instrument=sep, options=kw,
                    expected=[tr.t[k] - E, y[k]], off=d)
    if 'set_xlim' in kw and sep is None:
        close(ax.get_xlim(), kw['set_xlim'], rtol=1e-9, atol=1e-9, msg="limits of the time axis")
    elif 'set_xlim' not in kw:
        lo, hi = ax.get_xlim()
        require(lo <= np.min(tr.t) - E and hi >= np.max(tr.t) - E, "observations outside of the time axis")
    if not case['gp']:
        curve(ax, tr.model, lambda x: x + E, "model of the time series", tr.tol * 4 + slack(tr, E), ax.get_xlim())
    else:
        for name, like in tr.likes.items():
            if sep is not None and name != sep or not hasattr(like, 'predict'):
                continue

            def pred(x, like=like):
                g = 0 if kw['subtract_gp_mean_model'] else like.predict(np.asarray(x, float))[0]
                return g + (0 if kw['subtract_orbit_model'] else tr.model(x))
            over = kw['set_xlim'] if 'set_xlim' in kw else (np.min(like.x) - E, np.max(like.x) - E)
            curve(ax, pred, lambda x: x + E, "model with GP of the time series", tr.tol * 8 + slack(tr, E) + 1e-5, over, instrument=name, options=kw)
            band(ax, tr, like, kw, E, name)
    if kw.get('highlight_last'):
        last(ax, np.array([np.max(tr.t) - E]), y[tr.t == np.max(tr.t)], tr, "time series")
    if kw['legend'] and sep is None:
        leg = ax.get_legend()
        require(leg is not None, "no legend")
        texts = [t.get_text() for t in leg.get_texts()]
        for n in sorted(set(tr.tel)):
            lab = kw['telfmts'].get(n, {}).get('label')
            if lab is not None:
                require(any(lab in t for t in texts), "label of an instrument in the legend", instrument=n, legend=texts)
            elif n not in radvel.plot.telfmts_default:
                require(any(n in t for t in texts), "label of an instrument in the legend", instrument=n, legend=texts)
        if kw.get('show_rms'):
            rms = sorted(float(x) for t in texts for x in re.findall(r'RMS=(-?[\d.]+)', t))
            want = sorted(float(np.std(tr.res[tr.tel == n])) for n in set(tr.tel))
            require(len(rms) == len(want), "RMS of the instruments in the legend", got=rms, expected=want)
            close(rms, want, rtol=0, atol=5.1e-3 + tr.tol, msg="RMS of the instruments in the legend")
    return E


def slack(tr, E):
    """Error of curves at times that were stored with the epoch subtracted."""
    dt = 4e-9 if tr.c['off'] else 1e-12
    return sum(2 * math.pi / o['per'] * dt * 4 * o['k'] / (1 - min(o['e'], 0.99)) ** 2.5 for o in tr.orbits) + 1e-3 * dt + \
        abs(tr.v['dvdt']) * 4e-9 + abs(tr.v['curv']) * 4e-9 * 5e3


def band(ax, tr, like, kw, E, name):
    from matplotlib.collections import PolyCollection
    best = None
    for col in ax.collections:
        if not isinstance(col, PolyCollection):
            continue
        vs = col.get_paths()[0].vertices
        if len(vs) < 400:
            continue
        x = np.unique(vs[:, 0])
        some = x[5:-5:max(1, len(x) // 40)]
        mu, sd = like.predict(some + E)
        mid = np.zeros(len(some)) + (0 if kw['subtract_gp_mean_model'] else mu) + (0 if kw['subtract_orbit_model'] else tr.model(some + E))
        bad = 0.0
        for xx, m, d in zip(some, mid, sd):
            yy = vs[vs[:, 0] == xx, 1]
            bad = max(bad, abs(yy.max() - (m + d)), abs(yy.min() - (m - d)))
        best = bad if best is None else min(best, bad)
    require(best is not None, "no uncertainty band of a GP", instrument=name)
    require(best <= 1e-4 + tr.tol * 8 + slack(tr, E), "uncertainty band of a GP", instrument=name, difference=best, options=kw)


def last(ax, xs, ys, tr, where):
    pts = [(float(l.get_xdata()[0]), float(l.get_ydata()[0])) for l in ax.get_lines() if len(np.atleast_1d(l.get_xdata())) == 1]
    ok = any(np.min(np.abs(px - xs)) < 1e-6 and np.min(np.abs(py - ys)) < tr.tol * 4 + 1e-9 for px, py in pts)
    require(ok, "highlight of the last observation", where=where, drawn=pts, expected=[list(xs), list(ys)])


def epoch_of(series, tr, kw):
    gx = np.concatenate([s[1] for s in series]) if series else np.array([])
    require(len(gx) > 0, "nothing is drawn")
    for E in tr.epochs(kw):
        if abs(np.min(gx) - (np.min(tr.t) - E)) < 1e-6:
            return E
    fail("times are not those of the data less an epoch", first=float(np.min(gx)), data=float(np.min(tr.t)), epoch=kw['epoch'])


def check_resid(ax, tr, case):
    s = bars(ax)
    E = epoch_of(s, tr, case['kw'])
    pair_up(s, tr.t - E, tr.res, tr.err, 1e-6, tr.tol * 4, "residuals")
    by_instrument(s, tr, tr.t - E, tr.res, tr.err, tr.tol * 4, "residuals")
    if case['kw'].get('highlight_last'):
        last(ax, np.array([np.max(tr.t) - E]), tr.res[tr.t == np.max(tr.t)], tr, "residuals")


def check_phase(ax, tr, case, i):
    kw = case['kw']
    s = bars(ax)
    ph, ptol = tr.phase(i, tr.t)
    ptol += 1e-7 if tr.c['off'] else 1e-9
    y = tr.res + tr.planet(i, tr.t)
    n = len(tr.t)
    nbin = None
    if sum(len(q[1]) for q in s) != 2 * n:
        nbin = s[-1]
        s = s[:-1]
    # every observation is drawn twice, one period apart
    gx, gy, ge = (np.concatenate([q[k] for q in s]) for k in (1, 2, 3))
    require(len(gx) == 2 * n, "number of points in a phase panel", drawn=len(gx), observations=n)
    near = lambda a, b: np.abs(a - b) <= ptol
    left = list(range(2 * n))
    for k in range(n):
        for shift in (-1.0, 0.0):
            hit = [j for j in left if (near(gx[j], ph[k] + shift) or (min(ph[k], 1 - ph[k]) < ptol and any(near(gx[j], q) for q in (-1.0, 0.0, 1.0))))
                   and abs(gy[j] - y[k]) <= tr.tol * 4 + 1e-9 * abs(y[k]) and abs(ge[j] - tr.err[k]) <= 1e-9 * (1 + ge[j])]
            if not hit:
                d = [(float(gx[j]), float(gy[j]), float(ge[j])) for j in left if abs(ge[j] - tr.err[k]) <= 1e-9 * (1 + ge[j])]
                fail("points of a phase panel", planet=i + 1, phase=float(ph[k] + shift), y=float(y[k]), err=float(tr.err[k]), candidates=d, basis=tr.c['basis'])
            left.remove(hit[0])
    by_instrument([(l, x[:len(x) // 2], v[:len(x) // 2], e[:len(x) // 2]) for l, x, v, e in s], tr, ph - 1, y, tr.err, tr.tol * 4 + 2 * ptol, "phase panel") \
        if min(min(ph), 1 - max(ph)) > 1e-5 else None
    lim = kw.get('phase_limits', [-0.5, 0.5])
    close(ax.get_xlim(), lim, rtol=1e-9, atol=1e-12, msg="limits of a phase panel")
    o = tr.orbits[i]

    def folded(x):
        ref = tr.v['tc%d' % (i + 1)] if 'tc' in tr.c['basis'].split() else o['tp']
        return tr.planet(i, ref + o['per'] * x)
    steep = 20 * o['k'] / (1 - min(o['e'], 0.99)) ** 2.5 * (ptol * 10)
    curve(ax, folded, lambda x: x, "model of a phase panel", tr.tol * 4 + steep + slack(tr, 0), lim, planet=i + 1)
    if n < 20 or kw['nobin']:
        require(nbin is None, "binned points although they were not asked for", n=n)
    elif nbin is not None and min(min(ph), 1 - max(ph)) > 1e-5:
        p2, y2 = np.concatenate([ph, ph + 1]), np.concatenate([y, y])
        edges = np.linspace(p2.min(), p2.max(), 26)
        if np.min(np.abs(np.subtract.outer(p2, edges[1:-1]))) > 1e-6:
            want = {}
            for b in range(25):
                m = (p2 >= edges[b]) & ((p2 < edges[b + 1]) if b < 24 else (p2 <= edges[25]))
                if m.sum() >= 3:
                    want[round(0.5 * (edges[b] + edges[b + 1]) - 1, 5)] = y2[m].mean(), y2[m].std() / math.sqrt(m.sum())
            got = {round(float(a), 5): (float(b), float(e)) for a, b, e in zip(*nbin[1:])}
            require(len(got) == len(want), "bins of a phase panel", got=got, expected=want)
            for (a, g), (b, w) in zip(sorted(got.items()), sorted(want.items())):
                close([a], [b], rtol=0, atol=2e-5, msg="position of a bin")
                close(list(g), list(w), rtol=1e-6, atol=tr.tol * 8 + 1e-5, msg="value of a bin")
    if kw.get('highlight_last'):
        k = np.flatnonzero(tr.t == np.max(tr.t))
        last(ax, np.concatenate([ph[k], ph[k] - 1]), y[k], tr, "phase panel")
    # printed parameters
    notes = [a.txt.get_text() for a in ax.artists if isinstance(a, AnchoredText)] + [a.txt.get_text() for a in ax.get_children() if isinstance(a, AnchoredText)]
    notes = [a for a in notes if 'days' in a]
    require(bool(notes), "no parameters are printed in a phase panel")
    lines = notes[0].split('\n')
    num = [float(re.search(r'=\s*(-?[\d.]+(?:e[-+]?\d+)?)', l).group(1)) for l in lines[:3]]
    if case['unc'] is None:
        close(num, [o['per'], o['k'], o['e']], rtol=0, atol=5.1e-3, msg="parameters printed in a phase panel", planet=i + 1)
    else:
        for v, p in zip(num, ('per', 'k', 'e')):
            u = tr.unc[p + str(i + 1)]
            close([v], [tr.med[p + str(i + 1)]], rtol=0, atol=max(0.51 * u if u > 0 else 5.1e-3, 1e-12), msg="parameters printed in a phase panel", name=p, planet=i + 1)
        for l, p in zip(lines, ('per', 'k', 'e')):
            u = tr.unc[p + str(i + 1)]
            if u > 0:
                g = float(re.search(r'pm\}?\$?\s*(-?[\d.]+(?:e[-+]?\d+)?)', l).group(1))
                close([g], [u], rtol=0.06, msg="uncertainties printed in a phase panel", name=p)
    shown = case['derived'] is not None and (case['derived']['how'] == 'status' or case['unc'] is not None)
    require(len(lines) == 3 + shown, "lines printed in a phase panel", lines=lines)
    letter = (case['letters'] or 'bcd')[i]
    for l, p in zip(lines, ('P', 'K', 'e')):
        require('%s_{%s}' % (p, letter) in l, "a parameter printed in a phase panel is another planet's", printed=l, letter=letter)
    if shown:
        check_derived(lines[3], case, i, letter)


def check_derived(line, case, i, letter):
    """The minimum mass printed in a phase panel."""
    d = case['derived']
    x = derive(d, len(case['c']['orbits']))['mpsini%d' % (i + 1)]
    lo, med, hi = np.quantile(x, [0.159, 0.5, 0.841])
    if abs(med - 100) < 1e-6:
        return
    unit = 1.0
    if d['how'] == 'status':
        jup = med > 100
        require(('Jup' in line) == jup and ('oplus' in line) == (not jup), "unit of a mass printed in a phase panel", printed=line, median=med)
        unit = C22.MEARTH / C22.MJUP if jup else 1.0
        require('M_%s' % letter in line, "a mass printed in a phase panel is another planet's", printed=line, letter=letter)
    err = 0.5 * (hi - lo) * unit
    got = float(re.search(r'=\s*(-?[\d.]+(?:e[-+]?\d+)?)', line).group(1))
    close([got], [med * unit], rtol=3e-4, atol=max(0.51 * err, 5.1e-3 if err < 1e-12 else 0), msg="mass printed in a phase panel", planet=i + 1, printed=line)
    if err > 1e-12:
        pm = re.search(r'pm\}?\$?\s*(-?[\d.]+(?:e[-+]?\d+)?)', line)
        require(pm is not None, "no uncertainty of a mass", printed=line)
        close([float(pm.group(1))], [err], rtol=0.06, msg="uncertainty of a mass printed in a phase panel", printed=line)


def frozen(post):
    s = C15.state(post)
    for k in ('medparams', 'uparams'):
        s['x' + k] = dict(getattr(post, k, None) or {})
    return s


def check_figure(case, ctx):
    c, kw = case['c'], case['kw']
    with C28.scratch(), mock.patch.dict(matplotlib.rcParams):
        try:
            post, vals = conf.build(c)
            tr = Truth(case, post, vals)
            extra = {}
            if case['letters']:
                post.params.planet_letters = {i + 1: case['letters'][i] for i in range(len(c['orbits']))}
            if case['unc']:
                tr.unc, tr.med = {}, {}
                for i, o in enumerate(tr.orbits):
                    for p in ('per', 'k', 'e'):
                        tr.unc[p + str(i + 1)] = 0.0 if case['unc'] == 'fixed' and p != 'k' else {'per': 0.012, 'k': 0.25, 'e': 0.034}[p]
                        tr.med[p + str(i + 1)] = o[p] + {'per': 0.1, 'k': 0.5, 'e': 0.01}[p]
                post.medparams = dict(tr.med)
                extra['uparams'] = dict(tr.unc)
            if case['derived']:
                dch = derive(case['derived'], len(c['orbits']))
                post.derived = dch.quantile([0.159, 0.5, 0.841])
                if case['derived']['how'] == 'status':
                    dch.to_csv('derived.csv.bz2', compression='bz2')
                    import configparser
                    extra['status'] = configparser.RawConfigParser()
                    extra['status'].read_dict(dict(derive=dict(run='True', chainfile='derived.csv.bz2')))
                elif case['unc']:
                    for i in range(len(c['orbits'])):
                        q = post.derived['mpsini%d' % (i + 1)]
                        extra['uparams']['mpsini%d' % (i + 1)] = tr.unc['mpsini%d' % (i + 1)] = 0.5 * (q.loc[0.841] - q.loc[0.159])
            before, kbefore = frozen(post), copy.deepcopy(kw)
            cls = orbit_plots.GPMultipanelPlot if case['gp'] else orbit_plots.MultipanelPlot
            if case['save']:
                extra['saveplot'] = 'fig.png'
            p = cls(post, **dict(kw, **extra))
            pl.close('all')
            for what in case['order']:
                if what == 'multi':
                    ret = p.plot_multipanel(nophase=case['nophase'])
                    require(isinstance(ret, tuple) and len(ret) == 2, "plot_multipanel returns figure and axes", got=type(ret).__name__)
                    fig, axes = ret
                    axes = [a for a in axes if a.figure is fig]
                    npl = 0 if case['nophase'] else len(c['orbits'])
                    if kw.get('plot_likelihoods_separately'):
                        names = [i['name'] for i in c['insts']]
                        require(len(axes) == len(names) + 1 + npl, "panels of the figure", got=len(axes))
                        for a, n in zip(axes, names):
                            check_time(a, tr, case, sep=n)
                        rest = axes[len(names):]
                    else:
                        require(len(axes) == 2 + npl, "panels of the figure", got=len(axes), nophase=case['nophase'])
                        check_time(axes[0], tr, case)
                        rest = axes[1:]
                    check_resid(rest[0], tr, case)
                    for i, a in enumerate(rest[1:]):
                        check_phase(a, tr, case, i)
                    if case['save']:
                        require(os.path.exists('fig.png') and os.path.getsize('fig.png') > 1000, "no file was written")
                else:
                    fig, ax = pl.subplots()
                    pl.sca(ax)
                    if what == 'timeseries':
                        p.plot_timeseries()
                        check_time(ax, tr, case)
                    elif what == 'residuals':
                        p.plot_residuals()
                        check_resid(ax, tr, case)
                    else:
                        i = len(c['orbits']) - 1
                        p.plot_phasefold(98, i + 1)
                        check_phase(ax, tr, case, i)
                pl.close('all')
            C15.same_state(before, frozen(post), "drawing a figure changed the posterior")
            require(kw == kbefore, "drawing a figure changed its options", before=kbefore, after=kw)
            if 'uparams' in extra:
                require(extra['uparams'] == tr.unc, "drawing a figure changed the uncertainties")
        finally:
            pl.close('all')
    ctx.nontrivial(len(tr.t) > 2 and any(o['k'] > 0 for o in tr.orbits))
    ctx.label(*case['order'])
    ctx.label('%d points or more' % 20 if len(tr.t) >= 20 else 'few points', '%d instruments' % len(c['insts']))


# ------------------------------------------------------------------ figures of samples

@st.composite
def chain_case(draw):
    c = draw(conf.config(max_planets=2, max_inst=2, kinds=('rv', 'gp'), custom=True, nmin=2, nmax=3, kernels=('QuasiPer', 'SqExp', 'Per', 'Celerite')))
    return dict(c=c, what=draw(st.sampled_from(['corner', 'trend', 'derived', 'auto'])), nw=draw(st.integers(1, 5)), ne=draw(st.integers(1, 4)),
                steps=draw(st.integers(2, 9)), seed=draw(st.integers(0, 10 ** 6)), letters=draw(st.sampled_from([None, 'de', 'cb'])),
                labels=draw(st.sampled_from(['range', 'shuffled'])), mass=draw(st.sampled_from([3.0, 300.0, 95.0])), twice=draw(st.booleans()),
                nan=draw(st.booleans()), save=draw(st.booleans()))


def plain(label):
    return re.sub(r'\\rm|[^A-Za-z0-9]', '', label)


MATH = MathTextParser('agg')


def typeset(labels):
    for s in labels:
        try:
            MATH.parse(s)
        except ValueError as e:
            fail("a label that cannot be typeset", label=s, error=str(e).strip().split('\n')[-1])


def check_chain(case, ctx):
    c = case['c']
    rng = np.random.RandomState(case['seed'])
    with C28.scratch(), mock.patch.dict(matplotlib.rcParams):
        try:
            post, vals = conf.build(c)
            free = post.name_vary_params()
            m = case['nw'] * case['ne'] * case['steps']
            ch = pd.DataFrame({n: vals[n][0] + 0.01 * rng.standard_normal(m) for n in free})
            ch['lnprobability'] = rng.uniform(-9, -1, m)
            npl = len(c['orbits'])
            if case['what'] == 'derived':
                for i in range(1, npl + 1):
                    ch['mpsini%d' % i] = case['mass'] * i * np.exp(0.02 * rng.standard_normal(m))
                    ch['a%d' % i] = 0.1 * i * np.exp(0.02 * rng.standard_normal(m))
                    ch['musini%d' % i] = 1e-5
                    if i == 1:
                        ch['rhop%d' % i] = np.nan if case['nan'] else 1 + 0.1 * rng.standard_normal(m)
            if case['labels'] == 'shuffled':
                ch.index = rng.permutation(m)
            keep, before = ch.copy(deep=True), frozen(post)
            size = matplotlib.rcParams['font.size']
            seen = []

            def fake(data, *a, **kw):
                seen.append((np.array(data, float), list(kw.get('labels') or [])))
                return pl.figure()
            tex = post.params.tex_labels()
            for _ in range(2 if case['twice'] else 1):
                if case['what'] in ('corner', 'derived'):
                    with everywhere(corner.corner, fake, ('radvel', 'corner')):
                        if case['what'] == 'corner':
                            mcmc_plots.CornerPlot(post, ch, saveplot='c.png' if case['save'] else None).plot()
                        else:
                            class P(object):
                                nplanets = npl
                            if case['letters']:
                                P.planet_letters = {i + 1: l for i, l in enumerate(case['letters'])}
                            mcmc_plots.DerivedPlot(ch, P, saveplot='c.png' if case['save'] else None).plot()
                    data, labels = seen.pop()
                    if case['what'] == 'corner':
                        want = {tex.get(n, n): keep[n].values for n in free}
                    else:
                        want = {}
                        for i in range(1, npl + 1):
                            l = (case['letters'] or 'bc')[i - 1]
                            x = keep['mpsini%d' % i].values
                            if np.median(x) > 100:
                                want['M_%s sin i M Jup' % l] = x * 5.9722e24 / 1.89819e27
                            else:
                                want['M_%s sin i M oplus' % l] = x
                            want['a_%s AU' % l] = keep['a%d' % i].values
                            if 'rhop%d' % i in keep and not case['nan']:
                                want['rho_%s g cm-3' % l] = keep['rhop%d' % i].values
                    require(data.shape == (m, len(want)) and len(labels) == len(want), "columns of a corner plot", got=labels, expected=sorted(want))
                    flat = {plain(k): v for k, v in want.items()}
                    require(sorted(plain(s) for s in labels) == sorted(flat), "labels of a corner plot", got=labels, expected=sorted(want))
                    for k, lab in enumerate(labels):
                        close(data[:, k], flat[plain(lab)], rtol=2e-4 if 'Jup' in lab else 1e-12, msg="samples of a corner plot", label=lab)
                    typeset(labels)
                    require(matplotlib.rcParams['font.size'] == size, "a corner plot leaves another font size")
                elif case['what'] == 'trend':
                    pages = []

                    def page(self, *a, **kw):
                        fig = kw.get('figure') or (a[0] if a else pl.gcf())
                        ax = fig.axes[0]
                        pages.append((ax.get_ylabel(), [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_color()) for l in ax.get_lines()]))
                    from matplotlib.backends.backend_pdf import PdfPages
                    with mock.patch.object(PdfPages, 'savefig', page):
                        mcmc_plots.TrendPlot(post, ch, case['nw'], case['ne'], 't.pdf').plot()
                    require(len(pages) == len(free), "one page for each free parameter", got=len(pages), free=free)
                    left = list(free)
                    typeset([lab for lab, _ in pages])
                    for lab, lines in pages:
                        n = next((n for n in left if tex.get(n, n) == lab or n == lab), None)
                        require(n is not None, "label of a page", got=lab, left=left)
                        left.remove(n)
                        # samples are stored walker by walker, within a walker ensemble by ensemble
                        want = keep[n].values.reshape(case['nw'], case['ne'], case['steps'])
                        require(len(lines) == case['nw'] * case['ne'], "one series for each walker of each ensemble", got=len(lines))
                        pool = [(w, e) for w in range(case['nw']) for e in range(case['ne'])]
                        cols = {}
                        for x, y, col in lines:
                            hit = [q for q in pool if y.shape == want[q].shape and np.allclose(y, want[q], rtol=1e-12, atol=0)]
                            require(bool(hit), "a series of a trend plot is not one walker's history", name=n)
                            pool.remove(hit[0])
                            close(np.diff(x), np.ones(len(x) - 1), rtol=1e-12, msg="steps of a trend plot") if len(x) > 1 else None
                            cols.setdefault(hit[0][0], set()).add(tuple(np.atleast_1d(matplotlib.colors.to_rgba(col))))
                        require(all(len(v) == 1 for v in cols.values()), "one colour for each walker")
                else:
                    k = case['steps']
                    au = pd.DataFrame(dict(autosamples=np.arange(1, k + 1) * 10.0, automin=rng.uniform(1, 2, k), automean=rng.uniform(2, 3, k),
                                           automax=rng.uniform(3, 9, k), factor=[float(rng.choice([1, 40]))] * k))
                    akeep = au.copy(deep=True)
                    got = []

                    def save(self, *a, **kw):
                        ax = self.axes[0]
                        got.append(([np.asarray(s.get_offsets(), float) for s in ax.collections], [np.column_stack(l.get_data()) for l in ax.get_lines()]))
                    with mock.patch.object(Figure, 'savefig', save):
                        mcmc_plots.AutoPlot(au, saveplot='a.png').plot()
                    pd.testing.assert_frame_equal(au, akeep)
                    sc, lines = got[0]
                    require(len(sc) == 3, "series of an autocorrelation plot", got=len(sc))
                    for col in ('automin', 'automean', 'automax'):
                        w = np.column_stack([akeep['autosamples'], akeep[col]])
                        require(any(s.shape == w.shape and np.allclose(s, w, rtol=1e-12) for s in sc), "autocorrelation times", which=col)
                    w = np.column_stack([akeep['autosamples'], akeep['autosamples'] / akeep['factor']])
                    require(any(s.shape == w.shape and np.allclose(s, w, rtol=1e-12) for s in lines), "autocorrelation criterion")
                pl.close('all')
                pd.testing.assert_frame_equal(ch, keep)
                C15.same_state(before, frozen(post), "drawing a figure changed the posterior")
        finally:
            pl.close('all')
    ctx.nontrivial(m > 4)
    ctx.label(case['what'])


SUBCHECKS = [Sub("figure", plot_case(), check_figure, quick=120, thorough=3000, budget=50, weight=3),
             Sub("gp", plot_case(True), check_figure, quick=90, thorough=2500, budget=50, weight=4),
             Sub("samples", chain_case(), check_chain, quick=60, thorough=1500, budget=25, weight=1)]
