"""C25: orbital phases and calendar dates."""
import math
from datetime import datetime, timedelta
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import radvel
from radvel import utils
from vlib import gen, pure, rvx
from vlib.core import Sub, close, require

PROPERTY = "C25"
RULE = ("1-3 orbits in any basis, 1-20 times within thousands of periods of conjunction (before and after, also the conjunction itself and whole periods "
        "from it), dates from the year 1 to 9999 to the microsecond; non-trivial: the times fall in more than one period / the date is not a whole day")


@st.composite
def phase_case(draw):
    n = draw(st.integers(1, 3))
    orbits = [draw(gen.orbit()) for _ in range(n)]
    pl = draw(st.integers(1, n))
    cycles = draw(st.lists(st.one_of(gen.fl(-3, 3), gen.fl(-2000, 2000), st.integers(-5, 5).map(float)), min_size=1, max_size=20))
    return dict(basis=draw(st.sampled_from(rvx.BASES)), orbits=orbits, planet=pl, cycles=cycles, epoch=draw(st.sampled_from([0.0, 2450000.0])),
                other=draw(st.sampled_from(rvx.BASES)), shift=draw(st.integers(-20, 20)))


def circ(a, b):
    d = np.abs(np.asarray(a, float) - np.asarray(b, float)) % 1.0
    return np.minimum(d, 1 - d)


def check_phase(c, ctx):
    orbits = [dict(o, tp=o['tp'] + c['epoch']) for o in c['orbits']]
    pl = c['planet']
    o = orbits[pl - 1]
    params = rvx.make_params(c['basis'], orbits)
    vector = radvel.model.Vector(params)
    before = rvx.snapshot(params), vector.vector.copy()
    per = o['per']
    use_tc = 'tc' in c['basis'].split()
    # time of the event phases are counted from, independently of the repository's conversions
    if use_tc:
        nu = math.pi / 2 - o['w']
        ee = 2 * math.atan2(math.sqrt(1 - o['e']) * math.sin(nu / 2), math.sqrt(1 + o['e']) * math.cos(nu / 2))
        t0 = o['tp'] + per / (2 * math.pi) * (ee - o['e'] * math.sin(ee))
        t0p = float(params['tc%d' % pl].value)
    else:
        t0 = o['tp']
        t0p = float(params['tp%d' % pl].value)
    t = t0p + per * np.array(c['cycles'])
    # the period of a log-period basis is only known to a relative 1e-15 or so
    tol = 1e-9 + 4e-15 * max(1.0, np.abs(np.array(c['cycles'])).max()) * 10 + 1e-15 * (abs(c['epoch']) + 200) / per * 4
    want = (t - t0) / per
    # t0 in the independent formula may be another conjunction/whole number of periods away: phases agree modulo one
    named = utils.t_to_phase(params, t, pl)
    vec = utils.t_to_phase_vector(vector, t, pl)
    for name, ph in (("from parameters", named), ("from the vector", vec)):
        ph = np.asarray(ph)
        require(ph.shape == t.shape, "one phase for each time", which=name)
        require(bool(np.all(ph >= 0) and np.all(ph <= 1)), "phases lie between 0 and 1", which=name, phases=ph)
        close(circ(ph, want), 0 * t, rtol=0, atol=tol, msg="fraction of a period since " + ('conjunction' if use_tc else 'periastron'), which=name,
              phases=ph, expected=want % 1)
    double = utils.t_to_phase(params, t, pl, cat=True)
    require(np.array_equal(double, np.concatenate((named, named + 1))), "cat=True repeats the phases one period later")
    double = utils.t_to_phase_vector(vector, t, pl, cat=True)
    require(np.array_equal(double, np.concatenate((vec, vec + 1))), "cat=True repeats the phases one period later, from the vector")
    # phases repeat with the period and do not depend on the company of other times
    again = utils.t_to_phase(params, t + c['shift'] * per, pl)
    close(circ(again, named), 0 * t, rtol=0, atol=2 * tol, msg="phases repeat with the period")
    one = utils.t_to_phase(params, t[:1], pl)
    require(one[0] == named[0], "each time has its own phase")
    # the same orbit in another basis that keeps the same event
    if ('tc' in c['other'].split()) == use_tc:
        p2 = rvx.make_params(c['other'], orbits)
        close(circ(utils.t_to_phase(p2, t, pl), named), 0 * t, rtol=0, atol=2 * tol, msg="phases depend on the basis", bases=(c['basis'], c['other']))
        close(circ(utils.t_to_phase_vector(radvel.model.Vector(p2), t, pl), named), 0 * t, rtol=0, atol=2 * tol, msg="phases depend on the basis",
              bases=(c['basis'], c['other']))
    after = rvx.snapshot(params), vector.vector.copy()
    require(before[0] == after[0] and np.array_equal(before[1], after[1]), "parameters were changed")
    ctx.nontrivial(len(set(math.floor(x) for x in c['cycles'])) > 1)
    ctx.label('tc' if use_tc else 'tp')


# ------------------------------------------------------------------ dates

REF = datetime(2000, 1, 1, 12)


@st.composite
def date_case(draw):
    d = draw(st.one_of(st.datetimes(min_value=datetime(1, 1, 2), max_value=datetime(9999, 12, 30)),
                       st.datetimes(min_value=datetime(1980, 1, 1), max_value=datetime(2060, 1, 1))))
    return dict(date=[d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond],
                later=draw(st.one_of(gen.logu(1e-3, 1e6), st.integers(1, 10 ** 6).map(float))))


def civil_jd(y, m, d):
    """Julian day number at noon of a (proleptic Gregorian) date: the textbook integer formula."""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045


def check_date(c, ctx):
    y, mo, d, h, mi, s, us = c['date']
    date = datetime(y, mo, d, h, mi, s, us)
    jd = utils.date2jd(date)
    exact = Fraction(civil_jd(y, mo, d)) - Fraction(1, 2) + Fraction((h * 3600 + mi * 60 + s) * 10 ** 6 + us, 86400 * 10 ** 6)
    close(float(Fraction(float(jd)) - exact), 0.0, rtol=0, atol=1.2e-9, msg="Julian date", got_jd=jd)
    back = utils.jd2date(jd)
    require(isinstance(back, datetime), "jd2date returns a datetime")
    require(abs((back - date).total_seconds()) <= 1e-4, "a date is lost on the way to Julian dates and back", date=str(date), back=str(back))
    # the other way round
    jd2 = float(jd) + c['later'] if float(jd) + c['later'] < 5373000 else float(jd) - min(c['later'], float(jd) - 1721430)
    d2 = utils.jd2date(jd2)
    close(utils.date2jd(d2), jd2, rtol=0, atol=2e-9, msg="a Julian date is lost on the way to calendar dates and back")
    close((d2 - date).total_seconds() / 86400, jd2 - float(jd), rtol=0, atol=3e-9, msg="time between dates")
    if date + timedelta(days=1) < datetime(9999, 12, 31):
        close(utils.date2jd(date + timedelta(days=1)) - jd, 1.0, rtol=0, atol=1e-9, msg="a day later")
    ctx.nontrivial((h, mi, s, us) != (12, 0, 0, 0))


def check_pure(c, ctx):
    orbits = [dict(o, tp=o['tp'] + c['epoch']) for o in c['orbits']]
    params = rvx.make_params(c['basis'], orbits)
    vector = radvel.model.Vector(params)
    o, pl = orbits[c['planet'] - 1], c['planet']
    t = o['tp'] + o['per'] * (np.array(c['cycles']) + 0.123)
    u = o['tp'] + o['per'] * (np.array(c['cycles'])[::-1] - 0.77)
    tol = 1e-9 + 1e-12 * max(1.0, np.abs(t).max() / o['per'])
    for cat in (False, True):
        for name, f in (("t_to_phase", lambda x: utils.t_to_phase(params, x, pl, cat=cat)),
                        ("t_to_phase_vector", lambda x: utils.t_to_phase_vector(vector, x, pl, cat=cat))):
            r = np.asarray(f(t.copy()))
            if np.all((r % 1 > 1e-6) & (r % 1 < 1 - 1e-6)):
                pure.law(name, f, [t], [u], atol=tol) if np.all((f(u) % 1 > 1e-6) & (f(u) % 1 < 1 - 1e-6)) else None
    ctx.nontrivial(len(t) > 1)


SUBCHECKS = [Sub("pure", phase_case(), check_pure, quick=60, thorough=1000, case_timeout=20),
             Sub("phases", phase_case(), check_phase, quick=700, thorough=15000, case_timeout=20),
             Sub("dates", date_case(), check_date, quick=700, thorough=20000, case_timeout=20)]
