"""C24: summary values and their uncertainties are rounded consistently."""
import math
from decimal import Decimal

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from radvel import utils
from vlib import gen, pure
from vlib.core import Sub, close, fail, require

PROPERTY = "C24"
RULE = ("numbers of magnitude 1e-12 - 1e12 of either sign, 1-6 figures, errors as the code prepares them (rounded to 1-3 figures); samples of 1-400 "
        "values, angles spread over up to 80 degrees about any direction; non-trivial: rounding changes the number, or the samples are not all equal")

mag = st.one_of(gen.logu(1e-12, 1e12), gen.logu(1e-4, 1e4), st.integers(1, 5000).map(float), st.integers(1, 5000).map(lambda i: i / 100.0),
                st.sampled_from([0.5, 0.05, 9.99, 99.5, 0.995, 1.0, 10.0, 100.0, 0.1, 0.01, 9.5, 0.0995]))
signed = st.tuples(mag, st.booleans()).map(lambda x: -x[0] if x[1] else x[0])


def place(x, sig):
    """Decimal exponent of the last of sig significant figures of x (from its exact decimal value)."""
    return Decimal(abs(x)).adjusted() - sig + 1


@st.composite
def round_case(draw):
    return dict(x=draw(st.one_of(signed, st.just(0.0))), sig=draw(st.integers(1, 6)), numpy=draw(st.booleans()))


def check_round(c, ctx):
    x, sig = c['x'], c['sig']
    got = float(utils.round_sig(np.float64(x) if c['numpy'] else x, sig=sig))
    if sig == 2:
        require(float(utils.round_sig(x)) == float(utils.round_sig(x, 2)), "two figures are the default")
    if x == 0:
        require(got == 0, "zero stays zero", got=got)
        return
    p = place(x, sig)
    require(abs(got - x) <= 0.5 * 10.0 ** p * (1 + 1e-9) + 4e-16 * abs(x), "moved by more than half a unit of the last figure kept", got=got, place=p)
    q = Decimal(repr(got)) / Decimal(10) ** p
    require(abs(q - q.to_integral_value()) <= Decimal('1e-9') * max(1, abs(q)), "more significant figures kept than asked for", got=got, place=p)
    require(got * x > 0, "the sign changed", got=got)
    close(float(utils.round_sig(-x, sig)), -float(utils.round_sig(x, sig)), rtol=1e-14, msg="negative numbers are rounded otherwise")
    again = float(utils.round_sig(got, sig))
    close(again, got, rtol=1e-14, msg="rounding twice")
    ctx.nontrivial(got != x)


# ------------------------------------------------------------------ value with errors

@st.composite
def sig_case(draw):
    e = draw(mag)
    e2 = e * draw(st.one_of(gen.fl(0.1, 10), st.just(1.0)))
    figs = draw(st.sampled_from([2, 2, 2, 1, 3]))
    med = draw(st.one_of(signed, st.just(0.0), gen.fl(-30, 30).map(lambda f: f * e)))
    return dict(med=med, lo=e, hi=draw(st.sampled_from([e2, e2, None])), figs=figs, numpy=draw(st.booleans()))


def decimals(x):
    """Number of decimals with which a number is printed."""
    d = Decimal(str(x)).normalize()
    return max(0, -d.as_tuple().exponent)


def check_sig(c, ctx):
    lo = float(utils.round_sig(c['lo'], c['figs']))
    hi = None if c['hi'] is None else float(utils.round_sig(c['hi'], c['figs']))
    med = c['med']
    if max(lo, hi or 0) >= 1e15 or abs(med) >= 1e15:
        return
    if c['figs'] == 3 and max(lo, hi or 0) >= 100:
        return          # errors of 100 and more are printed with two figures
    conv = np.float64 if c['numpy'] else float
    out = utils.sigfig(conv(med), conv(lo)) if hi is None else utils.sigfig(conv(med), conv(lo), conv(hi))
    require(len(out) == 3, "three values")
    m, a, b = out
    hi = lo if hi is None else hi
    close(float(a), lo, rtol=0, atol=0, msg="the lower error was changed")
    close(float(b), hi, rtol=0, atol=0, msg="the upper error was changed")
    nd = max(decimals(lo), decimals(hi))
    unit = 10.0 ** -nd
    if float(m) != 0 or med == 0 or nd < 2:
        lost = abs(float(m) - med)
        require(lost <= 0.5 * unit * (1 + 1e-9) + 4e-16 * abs(med), "the value moved by more than half a unit of the last decimal of its errors",
                med=med, got=m, errors=(lo, hi))
    else:
        fail("a value that is not zero is printed as zero next to errors with decimals", med=med, errors=(lo, hi))
    # not printed with more decimals than its errors, unless it would vanish
    if abs(med) >= unit and abs(med) < 1e12:
        q = Decimal(repr(float(m))) * Decimal(10) ** nd
        require(abs(q - q.to_integral_value()) <= Decimal('1e-6') * max(1, abs(q)) * Decimal('1e-3'), "the value has more decimals than its errors",
                med=med, got=m, errors=(lo, hi))
    ctx.nontrivial(float(m) != med)
    ctx.label('%d decimals' % nd if nd < 4 else '4+ decimals')


# ------------------------------------------------------------------ percentiles

@st.composite
def err_case(draw):
    n = draw(st.integers(1, 400))
    return dict(n=n, seed=draw(st.integers(0, 10 ** 6)), centre=draw(gen.fl(-math.pi, math.pi)), half=draw(st.sampled_from([0.0, 0.01, 0.3, 0.69])),
                skew=draw(st.booleans()), series=draw(st.booleans()), scale=draw(gen.logu(1e-3, 1e5)), shift=draw(gen.fl(-1e3, 1e3)),
                dup=draw(st.booleans()))


def order_stats(x):
    s = np.sort(x)
    return np.median(x), s[int(0.159 * len(s))], s[int(0.841 * len(s))]


def check_err(c, ctx):
    rng = np.random.RandomState(c['seed'])
    u = rng.rand(c['n']) if not c['skew'] else rng.rand(c['n']) ** 3
    if c['dup']:
        u = np.round(u, 1)
    wrap = (lambda v: pd.Series(v, index=np.arange(len(v))[::-1] * 3)) if c['series'] else (lambda v: v)
    # ordinary samples
    x = c['shift'] + c['scale'] * u
    g = wrap(x.copy())
    med, lo, hi = utils.geterr(g)
    m, a, b = order_stats(x)
    tol = 1e-12 * (abs(c['shift']) + c['scale'])
    close(med, m, rtol=0, atol=tol, msg="median")
    close(lo, m - a, rtol=0, atol=tol, msg="lower error: distance to the 15.9th percentile")
    close(hi, b - m, rtol=0, atol=tol, msg="upper error: distance to the 84.1th percentile")
    if c['n'] > 1:
        q = np.quantile(x, [0.159, 0.841], method='inverted_cdf'), np.quantile(x, [0.159, 0.841])
        step = np.diff(np.sort(x)).max()
        close(np.array([med - lo, med + hi]), q[1], rtol=0, atol=step * 1.01 + tol, msg="percentiles")
    require(np.array_equal(np.asarray(g), x), "the samples were changed")
    # angles
    y = c['centre'] + c['half'] * (2 * u - 1)
    w = np.angle(np.exp(1j * y))
    w = np.where(w <= -math.pi, math.pi, w)
    g = wrap(w.copy())
    med, lo, hi = utils.geterr(g, angular=True)
    m, a, b = order_stats(y)
    d = (med - m + math.pi) % (2 * math.pi) - math.pi
    close(d, 0.0, rtol=0, atol=1e-12, msg="median of angles depends on where they wrap", got_median=med, want_median=m)
    close([lo, hi], [m - a, b - m], rtol=0, atol=1e-12, msg="errors of angles depend on where they wrap", expected=(m - a, b - m))
    require(np.array_equal(np.asarray(g), w), "the angles were changed")
    ctx.nontrivial(len(set(x.tolist())) > 1)
    ctx.label('wrapped' if w.max() - w.min() > 4 else 'not wrapped')


def check_time(c, ctx):
    v, unit = utils.time_print(c)
    size = dict(seconds=1, minutes=60, hours=3600, days=86400)
    require(unit in size, "unit of time", got=unit)
    close(v * size[unit], c, rtol=1e-12, msg="time printed", unit=unit)
    lim = dict(seconds=60, minutes=60, hours=24)
    require(unit == 'days' or v <= lim[unit], "a larger unit would be used", got=(v, unit))
    require(unit == 'seconds' or v > 1, "a smaller unit would be used", got=(v, unit))
    ctx.nontrivial()
    ctx.label(unit)


def check_pure(c, ctx):
    rng = np.random.RandomState(c['seed'])
    x, y = c['centre'] + 0.6 * rng.rand(2, c['n'])
    pure.law("geterr", lambda v: utils.geterr(v), [c['scale'] * x], [c['scale'] * y])
    pure.law("geterr angular", lambda v: utils.geterr(v, angular=True), [x], [y], atol=1e-12)
    ctx.nontrivial(c['n'] > 2)


SUBCHECKS = [Sub("pure", err_case(), check_pure, quick=60, thorough=1000, case_timeout=20),
             Sub("figures", round_case(), check_round, quick=1500, thorough=40000, case_timeout=20),
             Sub("errors", sig_case(), check_sig, quick=2000, thorough=50000, case_timeout=20),
             Sub("percentiles", err_case(), check_err, quick=800, thorough=20000, case_timeout=20),
             Sub("durations", st.one_of(gen.logu(0.01, 1e7), gen.fl(0, 100)), check_time, quick=200, thorough=3000, case_timeout=20)]
