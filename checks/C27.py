"""C27: the tables of the report print exactly the run's data and results."""
import contextlib
import io
import itertools
import math
import os
import re
import stat as statmod
import tempfile
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from matplotlib.mathtext import MathTextParser

import radvel
import radvel.report
from radvel import driver
from vlib import conf, gen, pri, rvx, setup_gen
from vlib.core import Sub, close, fail, require
from vlib.swap import everywhere
from checks import C15, C24, C28

PROPERTY = "C27"
RULE = ("runs of 1-12 planets in any basis and 1-3 instruments (names with digits, one or several underscores, one a prefix of another), with or without GP, any subset of the "
        "parameters free, arbitrary chains, best-fit values, criteria and comparison results; tables asked for in any order and repeatedly; "
        "non-trivial: a free and a fixed parameter / more than one row")
ASSUMPTIONS = ["instrument names are made of letters, digits and underscores", "AICc values are finite"]

PRINT = 'per tc tp e w k'.split()
TEX = {'per': 'P', 'logper': 'lnP', 'logk': 'lnK', 'tc': 'Tconj', 'secosw': 'sqrtecosomega', 'sesinw': 'sqrtesinomega', 'ecosw': 'ecosomega',
       'esinw': 'esinomega', 'e': 'e', 'w': 'omega', 'tp': 'Tperi', 'k': 'K', 'se': 'se'}
UNIT = {'per': 'days', 'logper': '', 'tc': 'JD', 'tp': 'JD', 'e': '', 'se': '', 'w': 'radians', 'k': 'ms-1', 'logk': 'ln(ms-1)', 'secosw': '', 'sesinw': '',
        'ecosw': '', 'esinw': '', 'gamma': 'ms-1', 'jit': 'ms-1', 'dvdt': 'ms-1d-1', 'curv': 'ms-1d-2'}
GPTEX = {'gp_amp': 'eta1', 'gp_explength': 'eta2', 'gp_per': 'eta3', 'gp_perlength': 'eta4', 'gp_length': 'eta2', 'gp_B': 'B', 'gp_C': 'C', 'gp_L': 'L',
         'gp_Prot': 'Prot'}


def norm(s):
    """A label or unit without its typesetting."""
    s = re.sub(r'\\rm(?![a-z])', '', s)
    return re.sub(r'[\\{}$^_,\s]', '', s)


MATH = MathTextParser('agg')


def wellformed(text, what):
    """A cell of a table is LaTeX that can be typeset."""
    plain = re.sub(r'\\[^A-Za-z]', '', text)
    depth = 0
    for ch in plain:
        depth += {'{': 1, '}': -1}.get(ch, 0)
        require(depth >= 0, "unbalanced braces in a table", table=what, text=text)
    require(depth == 0, "unbalanced braces in a table", table=what, text=text)
    parts = re.split(r'(?<!\\)\$', text)
    require(len(parts) % 2 == 1, "formula without end in a table", table=what, text=text)
    for k, p in enumerate(parts):
        if k % 2 == 0:
            require(re.search(r'(?<!\\)[_^]', p) is None, "a subscript outside of a formula", table=what, text=text)
        else:
            try:
                MATH.parse('$%s$' % re.sub(r'\\bf(?![a-z])', '', p))
            except ValueError as e:
                fail("a formula that cannot be typeset", table=what, text=text, error=str(e).strip().split('\n')[-1])


def all_wellformed(tex, what):
    for head, rows in rows_of(tex):
        for r in rows:
            for cell in r:
                wellformed(cell, what)


# ------------------------------------------------------------------ runs

@st.composite
def run_case(draw, nmax=8):
    npl = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 11]))
    basis = draw(st.sampled_from(rvx.BASES))
    insts = draw(st.lists(st.sampled_from(['j', 'j1', 'hires', 'a_b', 'h1', 'k_2', 'x', 'jx', 'a_b_c', 'hires_rj_2', 'jit2', 'curvy', 'gamma', 'dvdt_b', 'length']), min_size=1, max_size=3, unique=True))
    orbits = [dict(per=draw(gen.logu(1, 2000)), tp=draw(gen.fl(0, 30)), e=draw(gen.eccs(0.7)), w=draw(gen.fl(-3.1, 3.1)), k=draw(gen.logu(0.3, 200)))
              for _ in range(npl)] if npl < 9 else \
             [dict(per=3.0 + 7.3 * i, tp=2.0 + i, e=0.05 * i, w=-2.5 + 0.4 * i, k=2.0 + i) for i in range(npl)]
    vals = {}
    for i, o in enumerate(orbits):
        for p, v in rvx.encode(basis, o).items():
            vals['%s%d' % (p, i + 1)] = v
    vals['dvdt'], vals['curv'] = draw(gen.fl(-0.1, 0.1)), draw(st.sampled_from([0.0, 1e-4, -2e-3]))
    gp = draw(st.sampled_from([None, None, 'SqExp', 'QuasiPer', 'Celerite']))
    hn = {}
    lin = []
    for i in insts:
        vals['gamma_' + i] = draw(gen.fl(-50, 50))
        vals['jit_' + i] = draw(gen.fl(0.1, 5))
    if gp:
        shared = draw(st.sampled_from([None] + conf.KERNELS[gp]))
        for i in insts:
            hn[i] = []
            for h in conf.KERNELS[gp]:
                name = h if h == shared or len(insts) == 1 and draw(st.booleans()) else h + '_' + i
                hn[i].append(name)
                if name not in vals:
                    vals[name] = draw(gen.fl(*conf.HRANGE[h]))
    else:
        lin = [n for n in vals if n.startswith('gamma_') and draw(st.integers(0, 3)) == 0]
    free = sorted(draw(st.lists(st.sampled_from(sorted(set(vals) - set(lin))), min_size=1, max_size=len(vals), unique=True)))
    t, vel, err, tel = [], [], [], []
    for i in insts:
        n = draw(st.integers(2, nmax))
        t += draw(gen.distinct_times(0, 60, n, n))
        vel += draw(st.lists(gen.fl(-150, 150), min_size=n, max_size=n))
        err += draw(st.lists(gen.fl(0.5, 30), min_size=n, max_size=n))
        tel += [i] * n
    off = draw(st.sampled_from([0.0, 2450000.0]))
    o = draw(st.permutations(range(len(t))))
    data = dict(time=[t[j] + off for j in o], mnvel=[vel[j] for j in o], errvel=[err[j] for j in o], tel=[tel[j] for j in o])
    letters = draw(st.sampled_from([None, 'bcd', 'dce']))
    priors = []
    if draw(st.booleans()):
        priors.append(dict(kind='EccentricityPrior'))
    if draw(st.booleans()):
        priors.append(dict(kind='PositiveKPrior'))
    for n in draw(st.lists(st.sampled_from(sorted(vals)), max_size=4, unique=True)):
        priors.append(draw(pri.spec(n, vals[n], kinds=['Gaussian', 'HardBounds', 'Jeffreys', 'Gaussian', 'HardBounds', 'Jeffreys'] + pri.KINDS)))
        if priors[-1]['kind'] == 'UserDefined':
            priors[-1]['tex'] = draw(st.sampled_from(['my prior $x = 3.5$', 'about 7']))
        if priors[-1]['kind'] == 'Baseline' and not n.startswith('per') and not n.startswith('logper'):
            priors.pop()
    if draw(st.integers(0, 3)) == 0:
        priors.append(dict(kind='Eclipse', planet=draw(st.integers(1, npl)), ts=draw(gen.fl(-10, 50)), err=draw(gen.fl(0.01, 2))))
    C = dict(star=draw(st.sampled_from(['s1', 'HD_10180', 'K2-24'])), orbits=orbits, instnames=insts, basis=basis, bjd0=0.0,
             letters=letters[:npl] if letters and npl < 4 else None, pars=[[n, v, n in free, None, n in lin] for n, v in vals.items()], data=data, index=None,
             priors=priors, time_base=draw(gen.fl(0, 3000)), stellar=None, planet=None, decorr_vars=None, hnames=hn or None,
             kernel_name={i: gp for i in insts} if gp else None)
    return dict(C=C, free=free, m=draw(st.sampled_from([60, 200, 700])), seed=draw(st.integers(0, 10 ** 6)), spread=draw(st.sampled_from([1.0, 0.1, 1e-3, 1e-5])),
                wcenter=draw(st.sampled_from([None, None, 3.1, -3.1, 1.5])),
                order=draw(st.lists(st.sampled_from(['params', 'rv', 'priors', 'crit', 'params', 'derived']), min_size=1, max_size=6)),
                title=draw(st.booleans()), lines=draw(st.sampled_from([None, 50, 1, 3, 7.0])), derived=draw(st.integers(0, 2)))


def samples(c):
    """Samples of the free parameters: skewed, so that the two error bars differ."""
    rng = np.random.RandomState(c['seed'])
    out = {}
    for n, v, vary, _, _ in c['C']['pars']:
        u = rng.standard_normal(c['m'])
        u = np.clip(np.where(u > 0, u * rng.choice([1.0, 2.3]), u), -3, 5) * c['spread']
        if not vary:
            continue
        stem = n.rstrip('0123456789')
        if stem in ('e', 'se'):
            x = np.minimum(np.abs(v + 0.02 * u), 0.95)
        elif stem in ('secosw', 'sesinw', 'ecosw', 'esinw'):
            x = v + 0.01 * u
        elif stem == 'per':
            x = v * (1 + 1e-3 * u)
        elif stem == 'logper':
            x = v + 1e-3 * u
        elif stem == 'k':
            x = v * (1 + 0.1 * u)
        elif stem == 'w' and c['wcenter'] is not None:
            x = np.angle(np.exp(1j * (c['wcenter'] + 0.2 * u)))
        else:
            x = v + 0.1 * u
        out[n] = x
    return out


def make(c, mod=False):
    """Posterior, chains and setup of a finished run, and what they hold as plain numbers."""
    C = c['C']
    setup_gen.write(C, 'sys.py')
    P, post = radvel.utils.initialize_posterior('sys.py')
    draws = samples(c)
    chains = pd.DataFrame(draws)
    rng = np.random.RandomState(c['seed'] + 1)
    best = {n: float(x[rng.randint(c['m'])]) for n, x in draws.items()}
    chains['lnprobability'] = rng.uniform(-100, -50, c['m'])

    def refit(p, **kw):
        for n, v in best.items():
            p.vector.vector[p.vector.indices[n]][0] = v
        p.vector.vector_to_dict()
        return p
    with everywhere(radvel.fitting.maxlike_fitting, refit):
        post, _, chains = driver.sampling_postprocessing(post, chains)
    fixed = {n: float(p.value) for n, p in post.params.items() if n not in best}
    return P, post, chains, draws, best, fixed


class Expected(object):
    """Samples and best value of every parameter of a run, in the fitting and printing bases."""

    def __init__(self, c, draws, best, fixed):
        C = c['C']
        self.C, self.m = C, c['m']
        self.x = {n: np.full(self.m, v) for n, v in fixed.items()}
        self.x.update(draws)
        self.best = dict(fixed)
        self.best.update(best)
        self.free = set(draws)
        b = C['basis'].split()
        for i in range(1, len(C['orbits']) + 1):
            mine = {p: self.x['%s%d' % (p, i)] for p in b}
            dec = rvx.decode(C['basis'], {p: float(self.best['%s%d' % (p, i)]) for p in b})
            if not any('%s%d' % (p, i) in self.free for p in b):
                rows = {p: np.full(self.m, v) for p, v in self.full(dec, {p: float(mine[p][0]) for p in b}, i).items()}
            else:
                rr = [self.full(rvx.decode(C['basis'], {p: float(mine[p][r]) for p in b}), {p: mine[p][r] for p in b}, i) for r in range(self.m)]
                rows = {p: np.array([r[p] for r in rr]) for p in PRINT}
            bb = self.full(dec, {p: self.best['%s%d' % (p, i)] for p in b}, i)
            for p in PRINT:
                self.x.setdefault('%s%d' % (p, i), rows[p])
                self.best.setdefault('%s%d' % (p, i), bb[p])

    def full(self, o, mine, i):
        # of the conjunctions and periastron passages of an orbit, the one C02 specifies
        o = dict(o)
        if 'tc' in mine:
            o['tc'] = float(mine['tc'])
            o['tp'] = float(radvel.orbit.timetrans_to_timeperi(o['tc'], o['per'], o['e'], o['w']))
        else:
            o['tc'] = float(radvel.orbit.timeperi_to_timetrans(o['tp'], o['per'], o['e'], o['w']))
        return {p: float(o[p]) for p in PRINT}

    def turns(self, name):
        """Values a time may be shifted by: whole orbits, the same for all samples."""
        stem, i = name.rstrip('0123456789'), name[len(name.rstrip('0123456789')):]
        if stem in ('tp', 'tc') and stem not in self.C['basis'].split():
            return [k * self.x['per' + i] for k in (0, 1, -1, 2, -2)], [k * self.best['per' + i] for k in (0, 1, -1, 2, -2)]
        return [0.0], [0.0]


def rows_of(tex, env='startdata'):
    """Sections of a table: list of (head, rows as lists of cells)."""
    body = tex[tex.index('\\startdata') + len('\\startdata'):tex.index('\\enddata')]
    body = re.sub(r'\\tablecomments\{[^{}]*(?:\{[^{}]*\}[^{}]*)*\}', '', body)
    out = [(None, [])]
    for line in body.split('\n'):
        line = line.strip()
        if not line or line == '\\hline' or line.startswith('\\hline') and line[6:].strip(' \\') == '':
            continue
        m = re.match(r'\\sidehead\{\\bf\{(.*)\}\}', line)
        if m:
            out.append((m.group(1), []))
            continue
        line = re.sub(r'\s*\\\\\s*$', '', line)
        out[-1][1].append([x.strip() for x in re.split(r'\s*&\s*', line)])
    return out


NUMBER = r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'


def number(s):
    s = s.strip()
    require(re.fullmatch(NUMBER, s) is not None, "not a number in a table", text=s)
    return float(s), 10.0 ** -C24.decimals(float(s) if '.' in s or 'e' in s.lower() else int(s))


def unit_of(s):
    """The last decimal with which a number is printed."""
    s = s.strip().lower()
    man, _, ex = s.partition('e')
    return 10.0 ** ((-len(man.partition('.')[2])) + (int(ex) if ex else 0))


def quantile_sets(x, angular):
    """(median, low, high) by interpolated and by counted quantiles; for angles on any of three branches."""
    xs = [np.asarray(x, float)]
    if angular:
        xs += [np.where(xs[0] < 0, xs[0] + 2 * math.pi, xs[0]), np.where(xs[0] >= 0, xs[0] - 2 * math.pi, xs[0])]
    for y in xs:
        q = np.quantile(y, [0.159, 0.5, 0.841])
        yield q[1], q[1] - q[0], q[2] - q[1]
        if angular:
            s = np.sort(y)
            yield q[1], q[1] - s[int(0.159 * len(s))], s[int(0.841 * len(s))] - q[1]


def check_value(row, name, exp, angular=False, ctx=None):
    """One row of the parameter table."""
    xs, bs = exp.x[name], exp.best[name]
    tx, tb = exp.turns(name)
    cred, like = row[1], row[2]
    m = re.fullmatch(r'\$\\equiv(%s)\$' % NUMBER, cred)
    span = float(np.ptp(xs))
    tiny = 1e-9 * (1 + abs(float(np.median(xs))))
    if m:
        # samples of which a third share the value at the median have an error bar of zero
        flat = span <= 1e-8 or span <= 10 * tiny or any(min(lo, hi) <= tiny for _, lo, hi in quantile_sets(xs, angular))
        require(flat, "a parameter that varies is printed as fixed", name=name, span=span, row=row)
        v = float(m.group(1))
        require(any(abs(v - (med + np.median(k))) <= 5.1e-5 + tiny for k in tx for med, _, _ in quantile_sets(xs, angular)), "value of a fixed parameter", name=name, row=row, value=float(np.median(xs)))
        if span > 1e-8 and span > 10 * tiny:
            return 'flat'
        m2 = re.fullmatch(r'\$(?:\\equiv)?(%s)\$' % NUMBER, like)
        require(m2 is not None, "best-fit value of a fixed parameter", name=name, row=row)
        require(any(abs(float(m2.group(1)) - (bs + k)) <= 5.1e-5 + tiny for k in tb), "best-fit value of a fixed parameter", name=name, row=row, value=float(bs))
        return 'fixed'
    require(span > 0, "a fixed parameter is printed with an uncertainty", name=name, row=row)
    m = re.fullmatch(r'\$(%s)\\pm (%s)\$' % (NUMBER, NUMBER), cred)
    if m:
        p, lo, hi = m.group(1), m.group(2), m.group(2)
    else:
        m = re.fullmatch(r'\$(%s)\^\{\+(%s)\}_\{-(%s)\}\$' % (NUMBER, NUMBER, NUMBER), cred)
        require(m is not None, "credible interval of a row", name=name, row=row)
        p, hi, lo = m.groups()
    ok = False
    for k in tx:
        for med, elo, ehi in quantile_sets(xs + k, angular):
            fuzz = tiny + 1e-9 * float(np.max(np.abs(xs + k)))
            if abs(float(lo) - elo) <= 0.051 * elo + fuzz and abs(float(hi) - ehi) <= 0.051 * ehi + fuzz and \
                    abs(float(p) - med) <= 0.51 * unit_of(p) + fuzz and abs(float(p) - med) <= 0.55 * max(elo, ehi) + fuzz:
                ok = True
    if not ok:
        fail("credible interval of a parameter", name=name, row=row, expected=[list(map(float, q)) for q in quantile_sets(xs, angular)])
    m = re.fullmatch(r'\$(%s)\$' % NUMBER, like)
    require(m is not None, "best-fit value", name=name, row=row)
    # rounded for printing, after having been rounded for storage
    tol = 0.51 * (0.5 * (float(lo) + float(hi)) + unit_of(m.group(1))) + tiny
    require(any(abs(float(m.group(1)) - (bs + k)) <= tol + 1e-9 * abs(k) for k in tb), "best-fit value of a parameter", name=name, row=row, value=float(bs))
    return 'free'


def check_params(tex, c, exp, P, title):
    C = c['C']
    npl = len(C['orbits'])
    letters = C['letters'] or 'bcdefghijklmnop'
    secs = [s for s in rows_of(tex) if s[0] is not None]
    require([s[0] for s in secs] == ["Modified MCMC Step Parameters", "Orbital Parameters", "Other Parameters"], "sections of the parameter table", got=[s[0] for s in secs])
    cap = re.search(r'\\tablecaption\{(.*)\}', tex).group(1).strip()
    require(cap == (C['star'].replace('_', '\\_') + ' Posteriors' if title else 'Posteriors') or cap == C['star'] + ' Posteriors' and title, "title", got=cap)
    seen = []
    for (head, rows), names in zip(secs[:2], (C['basis'].split(), PRINT)):
        want = [(p, i) for i in range(1, npl + 1) for p in names]
        require(len(rows) == len(want), "one row for each orbital element", section=head, rows=[r[0] for r in rows], expected=want)
        for r, (p, i) in zip(rows, want):
            require(len(r) >= 3, "cells of a row", row=r)
            require(norm(r[0]) == TEX[p] + letters[i - 1], "label of an orbital element", section=head, expected=[p, i], row=r)
            require(norm(r[3] if len(r) > 3 else '') == UNIT[p], "unit of an orbital element", expected=p, row=r)
            seen.append(check_value(r, '%s%d' % (p, i), exp, angular=p == 'w'))
    labels = {}
    for n in (n for n, _, _, _, _ in C['pars']):
        if n in ('dvdt', 'curv'):
            labels[{'dvdt': 'dotgamma', 'curv': 'ddotgamma'}[n]] = (n, UNIT[n])
        elif n.startswith('gamma_'):
            labels['gamma' + norm(n[6:])] = (n, UNIT['gamma'])
        elif n.startswith('jit_'):
            labels['sigma' + norm(n[4:])] = (n, UNIT['jit'])
        elif n.startswith('gp_'):
            stem = next(h for h in sorted(GPTEX, key=len, reverse=True) if n == h or n.startswith(h + '_'))
            labels[GPTEX[stem] + norm(n[len(stem) + 1:])] = (n, None)
    got = [norm(r[0]) for r in secs[2][1]]
    require(sorted(got) == sorted(labels), "one row for each offset, trend, jitter and hyperparameter", got=got, expected=sorted(labels))
    for r in secs[2][1]:
        n, u = labels[norm(r[0])]
        if u is not None:
            require(norm(r[3] if len(r) > 3 else '') == u, "unit of a parameter", name=n, row=r)
        seen.append(check_value(r, n, exp))
    require(re.search(r'\{\s*%d links saved' % c['m'], tex) is not None, "number of samples in the note", m=c['m'])
    e = re.search(r'Reference epoch[^:]*:\s*(%s)' % NUMBER, tex)
    require(e is not None and abs(float(e.group(1)) - C['time_base']) <= 1e-6, "reference epoch in the note")
    return seen


def check_rv(tex, c, post, lines, title):
    C = c['C']
    d = C['data']
    n = len(d['time'])
    keep = n if lines is None else min(int(round(lines)), n)
    rows = rows_of(tex)[0][1]
    if lines is not None:
        m = re.search(r'Only the first (\d+) of (\d+) RVs', tex)
        require(m is not None and int(m.group(2)) == n, "the note says how many velocities there are")
        require(int(m.group(1)) in (int(round(lines)), keep), "the note says how many velocities are printed")
    require(len(rows) == keep, "one row for each observation", rows=len(rows), observations=n, lines=lines)
    left = [(d['time'][i], d['mnvel'][i], d['errvel'][i], d['tel'][i]) for i in range(n)]
    for r in rows:
        hit = [q for q in left if abs(float(r[0]) - q[0]) <= 5.1e-6 + 1e-15 * abs(q[0]) * 4 and abs(float(r[1]) - q[1]) <= 5.1e-3 and
               abs(float(r[2]) - q[2]) <= 5.1e-3 and norm(r[3]) == norm(q[3])]
        if not hit:
            fail("a row of the velocity table is not an observation", row=r)
        left.remove(hit[0])
    return n


def check_priors(tex, c, post):
    body = tex[tex.index('\\startdata') + len('\\startdata'):tex.index('\\enddata')]
    text = [t.strip() for t in body.replace('\n', ' ').split('\\\\') if t.strip()]
    C = c['C']
    want = []
    letters = C['letters'] or 'bcdefghijklmnop'
    for d in C['priors']:
        if d['kind'] == 'EccentricityPrior':
            want += [('e' + letters[i], [0.99]) for i in range(len(C['orbits']))]
        elif d['kind'] == 'PositiveKPrior':
            want.append(('K', [0.0]))
        elif d['kind'] == 'UserDefined':
            want.append((norm(d['tex']), []))
        elif d['kind'] == 'Eclipse':
            want.append((None, [d['ts'], d['err']]))
        else:
            n = d['param']
            stem = n.rstrip('0123456789')
            if stem in TEX and n != stem:
                lab = TEX[stem] + letters[int(n[len(stem):]) - 1]
            elif n.startswith('gamma_'):
                lab = 'gamma' + norm(n[6:])
            elif n.startswith('jit_'):
                lab = 'sigma' + norm(n[4:])
            else:
                lab = None
            k = d['kind']
            want.append(((lab if k != 'Baseline' else n), {'Gaussian': ['mu', 'sigma'], 'Baseline': ['baseline', 'duration'], 'Numerical': [],
                                                           'ModifiedJeffreys': ['lo', 'hi', 'knee']}.get(k, ['lo', 'hi'])))
            want[-1] = (want[-1][0], [d[q] for q in want[-1][1]])
    require(len(text) == len(want), "one line for each prior", got=text, expected=want)
    for line, (lab, nums) in zip(text, want):
        if lab is not None:
            require(lab in norm(line), "a prior's line names its parameter", line=line, label=lab)
        found = [float(x) for x in re.findall(r'(?<![\w.])' + NUMBER, line)]
        for v in nums:
            require(any(abs(v - f) <= 1e-9 * (1 + abs(v)) for f in found), "a prior's line has its values", line=line, value=v)
    return len(want)


CRIT = ['minAfactor', 'maxArchange', 'maxGR', 'minTz']


def check_crit(tex, values):
    rows = rows_of(tex)[0][1]
    require([r[0] for r in rows] == CRIT, "rows of the criterion table", got=[r[0] for r in rows])
    for r, v in zip(rows, values):
        if v is None:
            require(r[1] == 'None', "a criterion that was not computed", row=r)
        else:
            x = r[1].strip('$ ')
            require(abs(float(x) - float(v)) <= 5.1e-4, "value of a criterion", row=r, value=v)


def add_derived(c, chains, k):
    """Columns as they come from `radvel derive`."""
    rng = np.random.RandomState(c['seed'] + 5)
    out = {}
    for i in range(1, len(c['C']['orbits']) + 1):
        mass = [3.0, 250.0, 99.9, 1500.0][(i + k) % 4]
        out['mpsini%d' % i] = mass * np.exp(0.05 * c['spread'] * rng.standard_normal(c['m']))
        out['a%d' % i] = 0.1 * i * np.exp(0.01 * c['spread'] * rng.standard_normal(c['m']))
        out['musini%d' % i] = out['mpsini%d' % i] * 3e-6
        if (i + k) % 2:
            out['rhop%d' % i] = 2.0 * np.exp(0.05 * c['spread'] * rng.standard_normal(c['m']))
    return chains.join(pd.DataFrame(out)), out


def check_derived(tex, c, chains, out):
    C = c['C']
    letters = C['letters'] or 'bcdefghijklmnop'
    rows = rows_of(tex)[0][1]
    want = {}
    at = int(np.argmax(chains['lnprobability'].values))
    for n, x in out.items():
        stem = n.rstrip('0123456789')
        l = letters[int(n[len(stem):]) - 1]
        u = {'mpsini': 'Moplus', 'a': 'AU', 'rhop': 'gcm-3'}.get(stem)
        if stem == 'musini':
            continue
        if stem == 'mpsini' and np.median(x) > 100:
            x, u = x * 5.9722e24 / 1.89819e27, 'MJup'
        want[{'mpsini': 'M%ssini', 'a': 'a%s', 'rhop': 'rho%s'}[stem] % l] = (n, x, u, x[at])
    require(sorted(norm(r[0]) for r in rows) == sorted(want), "one row for each derived parameter", got=[r[0] for r in rows], expected=sorted(want))
    for r in rows:
        n, x, u, b = want[norm(r[0])]
        require(norm(r[3] if len(r) > 3 else '') == u, "unit of a derived parameter", name=n, row=r, expected=u)

        class E(object):
            pass
        e = E()
        e.x, e.best, e.turns = {n: x}, {n: b}, lambda name: ([0.0], [0.0])
        m = re.fullmatch(r'\$(%s)(?:\\pm (%s)|\^\{\+(%s)\}_\{-(%s)\})\$' % ((NUMBER,) * 4), r[1])
        if m is None or u == 'MJup':
            # constants of nature are not known to the last digit
            v = re.search(NUMBER, r[1]).group(0)
            med, lo, hi = next(quantile_sets(x, False))
            close(float(v), med, rtol=3e-4, atol=max(6e-5, 0.51 * unit_of(v)) if m is None else 0.51 * unit_of(v), msg="value of a derived parameter", name=n)
            if m is not None:
                close([float(m.group(4) or m.group(2)), float(m.group(3) or m.group(2))], [lo, hi], rtol=0.052, msg="uncertainty of a derived parameter", name=n)
            continue
        check_value(r, n, e)


def frozen(post):
    s = C15.state(post)
    for k in ('maxparams', 'medparams', 'uparams'):
        s['x' + k] = {n: float(v) for n, v in getattr(post, k, {}).items()}
    return s


def check_run(c, ctx):
    C = c['C']
    with C28.scratch():
        np.random.seed(c['seed'])
        P, post, chains, draws, best, fixed = make(c)
        exp = Expected(c, draws, best, fixed)
        out = None
        if c['derived']:
            chains, out = add_derived(c, chains, c['derived'])
            if len(C['orbits']) > 10:
                P.planet_letters = {i + 1: l for i, l in enumerate('bcdefghijklmnop')}
        keep, before = chains.copy(deep=True), frozen(post)
        crit = [None] * 4 if c['seed'] % 3 == 0 else [str(v) if c['seed'] % 3 == 1 else v for v in (41.25, 0.0123456, 1.00721, 1234.0)]

        def table(tt, kind):
            if kind == 'params':
                return tt.tab_params(name_in_title=c['title'])
            if kind == 'rv':
                return tt.tab_rv(name_in_title=c['title'], max_lines=c['lines'])
            if kind == 'priors':
                return tt.tab_prior_summary(name_in_title=c['title'])
            if kind == 'crit':
                return tt.tab_crit(name_in_title=c['title'])
            return tt.tab_derived(name_in_title=c['title'])

        def fresh():
            return radvel.report.TexTable(radvel.report.RadvelReport(P, post, chains, *crit, derived=bool(c['derived'])))
        tt = fresh()
        seen = []
        made = {}
        for kind in c['order']:
            tex = table(tt, kind)
            if kind in made:
                require(made[kind] == tex, "a table made again differs", table=kind, order=c['order'], first=made[kind][:3000], second=tex[:3000])
                continue
            made[kind] = tex
            if tex:
                all_wellformed(tex, kind)
            if kind == 'params':
                seen = check_params(tex, c, exp, P, c['title'])
            elif kind == 'rv':
                check_rv(tex, c, post, c['lines'], c['title'])
            elif kind == 'priors':
                check_priors(tex, c, post)
            elif kind == 'crit':
                check_crit(tex, crit)
            elif out is not None:
                check_derived(tex, c, keep, out)
            else:
                require(tex == '', "derived parameters of a run without them")
        pd.testing.assert_frame_equal(chains, keep)
        C15.same_state(before, frozen(post), "making tables changed the posterior")
        last = c['order'][-1]
        require(table(fresh(), last) == made[last], "a table of a second report of the same run differs", table=last)
        C15.same_state(before, frozen(post), "making tables changed the posterior")
    ctx.nontrivial(('free' in seen and 'fixed' in seen) or 'params' not in c['order'])
    ctx.label(*c['order'])
    ctx.label('%d planets' % len(C['orbits']), '%d instruments' % len(C['instnames']), 'gp' if C['hnames'] else 'no gp')


# ------------------------------------------------------------------ model comparison

@st.composite
def comparison_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(45, 60)))
    scale = draw(st.sampled_from([1.0, 5.0, 50.0]))
    a = draw(st.lists(st.one_of(gen.fl(0, scale), st.sampled_from([0.0, 2.0, 4.0, 10.0, 1.9999, 10.001])), min_size=n, max_size=n))
    base = draw(st.sampled_from([0.0, 512.0, -128.0]))
    return dict(aicc=[base + x for x in a], seed=draw(st.integers(0, 10 ** 6)), how=draw(st.sampled_from(['direct', 'eval', 'report'])))


def stats(c):
    rng = np.random.RandomState(c['seed'])
    out = []
    for i, a in enumerate(c['aicc']):
        free = [r'$K_{b}$', '$e_{b}$', r'$\dot{\gamma}$', '$K_{c}$', r'\sigma'][:1 + i % 5]
        out.append({'Free Params': (free, "The free parameters in this model"), r'$N_{\rm free}$': (int(rng.randint(1, 30)), 'n'),
                    r'$N_{\rm data}$': (int(100 + i), 'n'), 'RMS': (float(np.round(rng.uniform(0.1, 50), 2)), 'rms'),
                    r'$\ln{\mathcal{L}}$': (float(np.round(rng.uniform(-500, 10), 2)), 'l'), 'BIC': (float(np.round(rng.uniform(-100, 900), 2)), 'b'),
                    'AICc': (float(a), 'a')})
    return out


def check_comparison(c, ctx):
    st_ = stats(c)
    text = repr(st_)
    with C28.scratch():
        given_ = eval(text) if c['how'] != 'direct' else st_
        keep = repr(given_)

        class Empty(object):
            pass
        r = Empty()
        r.compstats = given_
        t = object.__new__(radvel.report.TexTable)
        t.report = r
        tex = t.tab_comparison()
        require(repr(given_) == keep, "making the table changed the comparison results")
        require(t.tab_comparison() == tex, "the table made again differs")
    n = len(st_)
    order = sorted(st_, key=lambda s: s['AICc'][0])
    keys = list(st_[0])
    head = [h for h in re.findall(r'\\colhead\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}', tex)]
    require(head[0].startswith('AICc') and head[2:-1] == keys[1:], "columns of the comparison table", got=head)
    rows = rows_of(tex)[0][1]
    require(len(rows) == min(n, 50), "one row for each model", rows=len(rows), models=n)
    left = list(st_)
    best = order[0]['AICc'][0]
    level = 0.0
    prev = -math.inf
    for i, row in enumerate(rows):
        require(len(row) == len(keys) + 2, "cells of a row", row=row)
        vals = row[1:]
        hit = [s for s in left if all(abs(float(v) - s[k][0]) <= 5.1e-3 for k, v in zip(keys[1:], vals[1:-1])) and
               [f.strip() for f in vals[0].split(',')][:-1] == s['Free Params'][0]]
        require(bool(hit), "a row is not one of the compared models", row=row)
        left.remove(hit[0])
        a = hit[0]['AICc'][0]
        require(a >= prev, "models are not in the order of their AICc", row=row, previous=prev)
        prev = a
        delta = a - best
        require(abs(float(vals[-1]) - delta) <= 5.1e-3, "difference of AICc to the best model", row=row, expected=delta)
        msg = row[0]
        if i == 0:
            require('Favored Model' in msg, "the favoured model is not marked", row=row)
            continue
        now = max([0.0] + [l for l in (0.001, 2.0, 4.0, 10.0) if delta > (l if l != 0.001 else 0.0)])
        if now > level:
            want = {0.001: 'Nearly Indistinguishable', 2.0: 'Somewhat Disfavored', 4.0: 'Strongly Disfavored', 10.0: 'Ruled Out'}[now]
            require(msg == want, "comparison with the favoured model", row=row, delta=delta, expected=want)
            level = now
        else:
            require(msg == '', "comparison with the favoured model", row=row, delta=delta, expected='')
    if n > 50:
        require(all(s['AICc'][0] >= prev for s in left), "a better model than those printed was left out")
    ctx.nontrivial(n > 1)
    ctx.label('many' if n > 50 else 'few')


# ------------------------------------------------------------------ the document

@st.composite
def report_case(draw):
    c = draw(run_case())
    c['fate'] = draw(st.sampled_from(['ok', 'missing', 'silent']))
    c['ic'] = draw(st.booleans())
    c['derived'] = 0
    c['nfig'] = draw(st.integers(0, 2))
    return c


def check_report(c, ctx):
    C = c['C']
    with C28.scratch() as d:
        np.random.seed(c['seed'])
        P, post, chains, draws, best, fixed = make(c)
        os.mkdir('temp')
        os.mkdir('there')
        comp = stats(dict(aicc=[3.0, 1.0, 30.0], seed=1)) if c['ic'] else None
        tex = os.path.join(d, 'latex')
        with open(tex, 'w') as fh:
            fh.write('#!/bin/sh\n' + ('cp "$1" "${1%.tex}.pdf"\n' if c['fate'] == 'ok' else 'exit 1\n'))
        os.chmod(tex, statmod.S_IRWXU)
        report = radvel.report.RadvelReport(P, post, chains, 1.0, 2.0, 3.0, 4.0, compstats=comp)
        report.runname = 'run'
        figs = ['run_%s.pdf' % k for k in ('rv_multipanel', 'corner')[:c['nfig']]]
        for f in figs:
            open(os.path.join('there', f), 'w').write('figure ' + f)
        os.chdir('there')
        here = os.getcwd()
        with mock.patch.object(tempfile, 'tempdir', os.path.join(d, 'temp')):
            try:
                report.compile('run_results.pdf', latex_compiler=tex if c['fate'] != 'missing' else os.path.join(d, 'no_such_program'), depfiles=figs)
            except OSError:
                require(c['fate'] == 'silent', "compiling the report failed", fate=c['fate'])
        require(os.getcwd() == here, "compiling the report leaves the process in another directory", fate=c['fate'], cwd=os.getcwd())
        require(os.listdir(os.path.join(d, 'temp')) == [], "compiling the report leaves temporary files", fate=c['fate'])
        have = sorted(os.listdir('.'))
        want = sorted(figs + ['run_results.tex'] + (['run_results.pdf'] if c['fate'] == 'ok' else []))
        require(have == want, "files of the report", got=have, expected=want, fate=c['fate'])
        text = open('run_results.tex').read()
        if c['fate'] == 'ok':
            require(open('run_results.pdf').read() == text, "the document compiled is not the one saved")
        os.chdir(d)
        tt = radvel.report.TexTable(radvel.report.RadvelReport(P, post, chains, 1.0, 2.0, 3.0, 4.0, compstats=comp))
        for name, t in (('params', tt.tab_params()), ('rv', tt.tab_rv()), ('priors', tt.tab_prior_summary()), ('crit', tt.tab_crit())):
            require(text.count(t) == 1, "the report has each table once", table=name)
        require(('Model Comparison' in text) == c['ic'] and (not c['ic'] or text.count(tt.tab_comparison()) == 1), "model comparison in the report")
        require([f for f in figs if f in text] == figs and text.count('.pdf') == len(figs), "figures of the report", figs=figs)
    ctx.nontrivial(c['nfig'] > 0 or c['ic'])
    ctx.label(c['fate'])


SUBCHECKS = [Sub("tables", run_case(), check_run, quick=160, thorough=2500, budget=35, weight=3),
             Sub("comparison", comparison_case(), check_comparison, quick=150, thorough=4000, budget=8, weight=1),
             Sub("report", report_case(), check_report, quick=15, thorough=400, budget=12, weight=1)]
