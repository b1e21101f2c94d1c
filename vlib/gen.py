"""Shared generators. Every random choice is Hypothesis's; cases are plain data."""
import math

from hypothesis import strategies as st


def fl(lo, hi, **kw):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False, **kw)


def logu(lo, hi):
    """Log-uniform float."""
    return fl(math.log(lo), math.log(hi)).map(lambda v: min(max(math.exp(v), lo), hi))


def mix(*strats):
    return st.one_of(*strats)


def eccs(hi=0.95, zero=True):
    s = [fl(0.0 if zero else 1e-6, hi), fl(0.02, min(0.6, hi)), fl(0.5, hi)]
    if zero:
        s.append(st.just(0.0))
    return st.one_of(*s)


def omegas():
    return st.one_of(fl(-math.pi, math.pi), fl(-math.pi, math.pi),
                     st.sampled_from([0.0, math.pi / 2, -math.pi / 2, 1.0, 3.0, -3.0]))


def omegas_wide():
    return st.one_of(omegas(), fl(-12.0, 12.0), fl(math.pi, 2 * math.pi))


def periods():
    return st.one_of(logu(0.3, 3000.0), fl(1.0, 50.0))


def amps():
    return st.one_of(logu(0.05, 500.0), fl(0.5, 20.0))


def epochs():
    return st.one_of(fl(-50.0, 50.0), fl(2450000.0, 2460000.0), st.just(0.0))


def orbit():
    """One planet in the synthesis basis."""
    return st.fixed_dictionaries(dict(per=periods(), tp=fl(-40.0, 60.0), e=eccs(), w=omegas(), k=amps()))


def scatter(n, a, b=0.0):
    """A deterministic, irregular sequence in (0, 1): data values that need no RNG of ours."""
    out = []
    for i in range(n):
        v = math.sin((i + 1) * 12.9898 + a * 78.233 + b * 37.719) * 43758.5453
        out.append(v - math.floor(v))
    return out


def distinct_times(lo=0.0, hi=100.0, min_size=3, max_size=25, sort=False):
    """Distinct times with a gap of at least 1e-3."""
    s = st.lists(st.integers(int(lo * 1000), int(hi * 1000)), min_size=min_size, max_size=max_size,
                 unique=True).map(lambda v: [x / 1000.0 for x in v])
    return s.map(sorted) if sort else s


@st.composite
def spread_times(draw, n, lo=0.0, hi=100.0):
    """n distinct times, one per equal share of the interval, in any order."""
    u = draw(st.lists(fl(0.05, 0.95), min_size=n, max_size=n))
    t = [lo + (hi - lo) * (i + x) / n for i, x in enumerate(u)]
    k = draw(st.integers(0, n - 1))
    return t[k:] + t[:k]
