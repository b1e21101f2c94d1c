"""C23: binning conserves the data."""
import math

import numpy as np
from hypothesis import strategies as st

from radvel import utils
from vlib import gen, pure
from vlib.core import Sub, close, fail, require

PROPERTY = "C23"
RULE = ("0-40 observations of 1-4 instruments in any order, clustered, equal or spread times near 0 or near a Julian date, any bin width including zero; "
        "non-trivial: at least one bin has two or more members and there are two or more bins")


@st.composite
def case(draw):
    base = draw(st.sampled_from([0.0, -50.0, 2450000.0, 2457754.5]))
    n = draw(st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 40), st.integers(41, 300)))
    if n > 40 or draw(st.booleans()):
        seed = draw(st.integers(0, 10 ** 6))
        rng = np.random.RandomState(seed)
        nights = rng.randint(0, max(1, n // 2) + 1, n) * rng.choice([1.0, 0.5, 7.0])
        t = nights + rng.choice([0.0, 0.01, 0.1, 0.3], n) * np.round(rng.rand(n), 3)
        v, e = np.round(rng.randn(n) * 10, 3), np.round(0.1 + rng.rand(n) * rng.choice([1, 10]), 3)
        tel = rng.randint(0, 4, n)
        t, v, e, tel = t.tolist(), v.tolist(), e.tolist(), tel.tolist()
    else:
        t = draw(st.lists(st.one_of(gen.fl(0, 20), st.sampled_from([0.0, 1.0, 1.25, 2.0, 2.5])), min_size=n, max_size=n))
        v = draw(st.lists(gen.fl(-100, 100), min_size=n, max_size=n))
        e = draw(st.lists(st.one_of(gen.fl(0.1, 20), st.just(1.0)), min_size=n, max_size=n))
        tel = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    ntel = draw(st.integers(1, 4))
    names = draw(st.permutations(['hires', 'apf', 'a', 'j_2']))
    return dict(t=[base + x for x in t], v=v, e=e, tel=[names[i % ntel] for i in tel],
                width=draw(st.one_of(gen.logu(1e-3, 30), st.sampled_from([0.5, 1.0, 0.25, 0.0, 1e-12, 1e9]))), perm=draw(st.integers(0, 10 ** 6)))


def ref_bins(t, v, e, w):
    """Bins from the earliest observation on: everything less than one width after the first observation that is left."""
    order = sorted(range(len(t)), key=lambda i: t[i])
    out, clear, sizes = [], True, []
    while order:
        t0 = t[order[0]]
        mem = [i for i in order if t[i] == t0 or t[i] - t0 < w]
        clear &= all(t[i] == t0 or abs(t[i] - t0 - w) > 4e-16 * (abs(t[i]) + abs(t0) + w) * 2 for i in order)
        wt = [1 / e[i] ** 2 for i in mem]
        s = math.fsum(wt)
        out.append((t0 + math.fsum(x * (t[i] - t0) for x, i in zip(wt, mem)) / s, math.fsum(x * v[i] for x, i in zip(wt, mem)) / s, s ** -0.5))
        sizes.append(len(mem))
        order = [i for i in order if i not in mem]
    return out, sizes, clear


def call(f, *args, **kw):
    keep = [np.array(a, copy=True) for a in args]
    out = f(*args, **kw)
    require(all(np.array_equal(a, k) for a, k in zip(args, keep)), "binning changed its arguments")
    return out


def compare(got, want, t, msg):
    require(all(len(g) == len(want) for g in got[:3]), msg + ": number of bins", got=[len(g) for g in got[:3]], want=len(want))
    if not want:
        return
    scale = max([abs(x) for x in t] + [1.0])
    W = np.array(want)
    close(np.asarray(got[0], float), W[:, 0], rtol=0, atol=1e-14 * scale * 40 + 1e-12, msg=msg + ": times")
    close(np.asarray(got[1], float), W[:, 1], rtol=1e-11, atol=1e-9, msg=msg + ": values")
    close(np.asarray(got[2], float), W[:, 2], rtol=1e-11, msg=msg + ": errors")


def check_bin(c, ctx):
    t, v, e, w = c['t'], c['v'], c['e'], c['width']
    A = [np.array(x, dtype=float) for x in (t, v, e)]
    want, sizes, clear = ref_bins(t, v, e, w)
    if clear:
        got = call(utils.timebin, *A, binsize=w)
        compare(got, want, t, "timebin")
        if t:
            wt = 1 / A[2] ** 2
            bw = 1 / np.array(got[2]) ** 2
            close(bw.sum(), wt.sum(), rtol=1e-10, msg="total weight")
            close((bw * np.array(got[1])).sum(), (wt * A[1]).sum(), rtol=1e-9, atol=1e-9 * wt.sum() * (1 + np.abs(A[1]).max()), msg="weighted sum of the values")
        # order of the data
        p = np.random.RandomState(c['perm']).permutation(len(t))
        again = call(utils.timebin, *[a[p] for a in A], binsize=w)
        for a, b, n in zip(got, again, ('times', 'values', 'errors')):
            close(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9, msg="binning depends on the order of the data: " + n)
    if not t:
        ctx.label('empty')
        return
    # instruments
    tel = np.array(c['tel'])
    names = list(dict.fromkeys(c['tel']))
    if len(t) and clear:
        per = {}
        for n in names:
            i = [j for j in range(len(t)) if c['tel'][j] == n]
            per[n] = ref_bins([t[j] for j in i], [v[j] for j in i], [e[j] for j in i], w)
        if all(x[2] for x in per.values()):
            tb, vb, eb, tl = call(utils.bintels, A[0], A[1], A[2], tel, binsize=w)
            require(len(tb) == len(vb) == len(eb) == len(tl), "bins and their instruments have different lengths")
            require(set(tl) == set(names), "instruments of the bins", got=sorted(set(tl)), want=sorted(names))
            for n in names:
                m = np.asarray(tl) == n
                compare([np.asarray(x)[m] for x in (tb, vb, eb)], per[n][0], t, "bins of instrument " + n)
            if w == 0.5:
                d = utils.bintels(A[0], A[1], A[2], tel)
                require(all(np.array_equal(x, y) for x, y in zip(d, (tb, vb, eb, tl))), "the default width is half a day")
            ctx.label('%d instruments' % len(names))
    ctx.nontrivial(max(sizes) > 1 and len(sizes) > 1)
    ctx.label('width 0' if w == 0 else 'one bin' if len(sizes) == 1 else 'no binning' if max(sizes) == 1 else 'bins')


# ------------------------------------------------------------------ fastbin

@st.composite
def fast_case(draw):
    n = draw(st.integers(1, 200))
    return dict(n=n, seed=draw(st.integers(0, 10 ** 6)), nbins=draw(st.integers(1, 40)), lo=draw(st.sampled_from([0.0, 0.0, -1.0, 5.0])),
                width=draw(st.sampled_from([1.0, 2.0, 10.0])), level=draw(st.sampled_from([0.0, 10.3, -1234.567])), spread=draw(st.sampled_from([0.0, 1.0, 1e-7, 50.0])),
                dup=draw(st.booleans()))


def check_fast(c, ctx):
    rng = np.random.RandomState(c['seed'])
    x = c['lo'] + c['width'] * rng.rand(c['n'])
    y = c['level'] + c['spread'] * rng.randn(c['n'])
    if c['dup']:
        x, y = np.concatenate((x, x + c['width'])), np.concatenate((y, y))
    lo, hi = x.min(), x.max()
    if hi - lo < 1e-6:
        return
    pos = (x - lo) / (hi - lo) * c['nbins']
    near = np.abs(pos - np.round(pos))
    near[(x == lo) | (x == hi)] = 1
    if near.min() < 1e-9:
        return
    idx = np.minimum(pos.astype(int), c['nbins'] - 1)
    want = []
    for b in range(c['nbins']):
        m = idx == b
        centre = lo + (b + 0.5) * (hi - lo) / c['nbins']
        if m.sum() >= 3 and centre > 0:
            want.append((centre, y[m].mean(), y[m].std() / np.sqrt(m.sum())))
    bt, bd, be = call(utils.fastbin, x, y, nbins=c['nbins'])
    require(len(bt) == len(bd) == len(be) == len(want), "number of bins with three points or more and a positive centre", got=len(bt), want=len(want))
    if want:
        W = np.array(want)
        scale = np.abs(y).max() + 1e-300
        close(bt, W[:, 0], rtol=1e-9, atol=1e-9, msg="centres")
        close(bd, W[:, 1], rtol=1e-10, atol=1e-12 * scale, msg="means")
        # the error comes from the difference of two sums of squares
        close(be, W[:, 2], rtol=1e-6, atol=2e-7 * scale, msg="standard errors of the means")
    ctx.nontrivial(len(want) > 1)


def check_pure(c, ctx):
    n = min(len(c[0]['t']), len(c[1]['t']))
    if not n:
        return
    w = c[0]['width']
    A, B = ([np.array(x[k][:n], dtype=float) for k in 'tve'] for x in c)
    pure.law("timebin", lambda *x: utils.timebin(*x, binsize=w), A, B)
    ta, tb = (np.array(x['tel'][:n], dtype='U8') for x in c)
    pure.law("bintels", lambda *x: utils.bintels(*x, binsize=w), A + [ta], B + [tb])
    if np.ptp(A[0]) > 1e-6 and np.ptp(B[0]) > 1e-6:
        pure.law("fastbin", lambda *x: utils.fastbin(*x, nbins=5), A[:2], B[:2], rtol=1e-9)
    ctx.nontrivial(n > 1)


SUBCHECKS = [Sub("pure", st.tuples(case(), case()), check_pure, quick=80, thorough=1000, case_timeout=20),
             Sub("bins", case(), check_bin, quick=1500, thorough=30000, weight=2, case_timeout=10),
             Sub("fastbin", fast_case(), check_fast, quick=500, thorough=10000)]
