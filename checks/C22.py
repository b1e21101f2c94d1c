"""C22: derived physical parameters follow the laws of orbital mechanics."""
import warnings

import numpy as np
from astropy import constants as ac
from hypothesis import strategies as st
from scipy.optimize import brentq

from radvel import utils
from vlib import gen, pure
from vlib.core import Sub, close, fail, require

PROPERTY = "C22"
RULE = ("amplitudes 0.01 m/s - 1000 km/s, periods 0.1 - 1e6 d, stars of 0.01 - 30 solar masses, eccentricities below 0.99, each of them a scalar or an "
        "array; non-trivial: a positive amplitude and (mass functions) an eccentric orbit or a star that is not of one solar mass")
G, MSUN, MJUP, MEARTH = 6.6743e-11, 1.988409870698051e30, 1.8981245973360505e27, 5.972167867791379e24
AU, RJUP, REARTH, DAY = 1.495978707e11, 7.1492e7, 6.3781e6, 86400.0
TOL = 5e-5         # the code's reference amplitude is rounded to 28.4329 m/s


def exact_mass(K, P, M, e):
    """Companion mass (kg) from K = (2 pi G / P)^(1/3) m (M + m)^(-2/3) / sqrt(1 - e^2), by bisection."""
    a = K * np.sqrt(1 - e * e) * (P * DAY / (2 * np.pi * G)) ** (1 / 3.)
    M = M * MSUN
    hi = 2 * (a * (M ** (2 / 3.)) + a ** 3) + 1
    while hi - a * (M + hi) ** (2 / 3.) < 0:
        hi *= 2
    return brentq(lambda x: x - a * (M + x) ** (2 / 3.), 0, hi, xtol=1e-14 * hi, rtol=1e-13)


def light_mass(K, P, M, e):
    return K * np.sqrt(1 - e * e) * (P * DAY / (2 * np.pi * G)) ** (1 / 3.) * (M * MSUN) ** (2 / 3.)


def amplitude(m, P, Mtot, e):
    """m in kg, Mtot in solar masses, P in days."""
    return (2 * np.pi * G / (P * DAY)) ** (1 / 3.) * m * (Mtot * MSUN) ** (-2 / 3.) / np.sqrt(1 - e * e)


@st.composite
def values(draw, n):
    heavy = draw(st.booleans())
    K = gen.logu(0.01, 1e4) if not heavy else gen.logu(100.0, 1e6)
    s = dict(K=K, P=gen.logu(0.1, 1e6), M=gen.logu(0.01, 30.0), e=st.one_of(gen.fl(0, 0.98), st.just(0.0)), R=gen.logu(0.1, 30.0), m=gen.logu(1e-3, 1e5))
    kinds = draw(st.sampled_from(['scalar', 'array', 'mixed', 'mixed']))
    c = {}
    for k, v in s.items():
        arr = dict(scalar=False, array=True).get(kinds)
        if arr is None:
            arr = draw(st.booleans())
        c[k] = draw(st.lists(v, min_size=n, max_size=n)) if arr else draw(v)
    return c


case = st.integers(1, 5).flatmap(values).flatmap(lambda c: st.fixed_dictionaries(dict(
    v=st.just(c), units=st.sampled_from(['earth', 'jupiter', 'Jupiter', 'EARTH']), float32=st.just(False))))


def shape_of(*xs):
    return np.broadcast_shapes(*[np.shape(x) for x in xs])


def given(c, *names):
    out = [np.array(c[n]) if isinstance(c[n], list) else c[n] for n in names]
    return out, [np.array(x, copy=True) for x in out]


def unchanged(args, keep):
    require(all(np.array_equal(a, b) for a, b in zip(args, keep)), "the arguments were changed")


def rows(shape, *xs):
    bs = [np.broadcast_to(np.asarray(x, dtype=float), shape) for x in xs]
    return [tuple(float(b[i]) for b in bs) for i in np.ndindex(shape)]


def check_msini(c, ctx):
    v, units = c['v'], c['units']
    args, keep = given(v, 'K', 'P', 'M', 'e')
    shape = shape_of(*args)
    R = rows(shape, *args)
    ratio = [light_mass(*r) / (r[2] * MSUN) for r in R]
    if any(abs(x - 0.1) < 1e-4 for x in ratio):
        return
    heavy = any(x > 0.1 for x in ratio)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = utils.Msini(*args, Msini_units=units)
    unchanged(args, keep)
    require(np.shape(got) == shape, "the masses have not the shape of the arguments", got=np.shape(got), want=shape)
    u = MEARTH if units.lower() == 'earth' else MJUP
    want = np.array([(exact_mass if heavy else light_mass)(*r) / u for r in R]).reshape(shape)
    close(got, want, rtol=TOL if not heavy else 1e-6, msg="minimum mass", heavy=heavy, ratios=ratio)
    # and back
    m = np.asarray(got) * (MEARTH / MSUN if units.lower() == 'earth' else MJUP / MSUN)
    back = utils.semi_amplitude(got, args[1], args[2] + (m if heavy else 0.0), args[3], Msini_units=units)
    close(back, np.broadcast_to(args[0], shape), rtol=2 * TOL, msg="amplitude of the mass computed from an amplitude")
    # every element as a call of its own (an element computed alone may take the approximation)
    for i, r in enumerate(R):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            one = utils.Msini(*r, Msini_units=units)
        require(np.shape(one) == (), "scalars give a scalar", got=np.shape(one))
        if heavy == (ratio[i] > 0.1):
            close(np.ravel(got)[i], one, rtol=1e-9, msg="element of the array differs from a call with scalars")
        else:
            require(0 <= np.ravel(got)[i] - one * (1 - 3 * TOL) <= one * 0.1, "approximate and exact masses of a light planet", exact=np.ravel(got)[i], approx=one)
    ctx.nontrivial(any(r[3] > 0.01 or abs(r[2] - 1) > 0.01 for r in R))
    ctx.label('heavy' if heavy else 'light', 'scalar' if shape == () else 'array')


def check_amplitude(c, ctx):
    v, units = c['v'], c['units']
    args, keep = given(v, 'm', 'P', 'M', 'e')
    shape = shape_of(*args)
    got = utils.semi_amplitude(*args, Msini_units=units)
    unchanged(args, keep)
    require(np.shape(got) == shape, "shape of the amplitudes", got=np.shape(got), want=shape)
    u = MEARTH if units.lower() == 'earth' else MJUP
    R = rows(shape, *args)
    close(got, np.array([amplitude(r[0] * u, *r[1:]) for r in R]).reshape(shape), rtol=TOL, msg="semi-amplitude")
    # the default units of both functions
    close(utils.semi_amplitude(*args), utils.semi_amplitude(*args, Msini_units='jupiter'), rtol=0, atol=0, msg="default unit of semi_amplitude")
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        close(utils.Msini(1.0, *args[1:]), utils.Msini(1.0, *args[1:], Msini_units='earth'), rtol=0, atol=0, msg="default unit of Msini")
    # Kepler's third law
    a = utils.semi_major_axis(args[1], args[2])
    unchanged(args, keep)
    sh = shape_of(args[1], args[2])
    require(np.shape(a) == sh, "shape of the axes", got=np.shape(a), want=sh)
    close(a, np.array([(G * M * MSUN * (P * DAY) ** 2 / (4 * np.pi ** 2)) ** (1 / 3.) / AU for P, M in rows(sh, args[1], args[2])]).reshape(sh), rtol=1e-6,
          msg="semi-major axis")
    # density
    (m, R_), keep = given(v, 'm', 'R')
    rho = utils.density(m, R_, MR_units=units)
    unchanged((m, R_), keep)
    sh = shape_of(m, R_)
    require(np.shape(rho) == sh, "shape of the densities", got=np.shape(rho), want=sh)
    um, ur = (MEARTH, REARTH) if units.lower() == 'earth' else (MJUP, RJUP)
    close(rho, np.array([x * um * 1e3 / (4 / 3. * np.pi * (y * ur * 100) ** 3) for x, y in rows(sh, m, R_)]).reshape(sh), rtol=1e-6, msg="density")
    close(utils.density(m, R_), utils.density(m, R_, MR_units='earth'), rtol=0, atol=0, msg="default unit of density")
    for f, arg in ((utils.semi_amplitude, dict(Msini_units='sun')), (utils.Msini, dict(Msini_units='kg'))):
        try:
            f(1.0, 1.0, 1.0, 0.0, **arg)
        except Exception:
            continue
        fail("an unknown unit is accepted")
    try:
        utils.density(1.0, 1.0, MR_units='sun')
    except Exception:
        pass
    else:
        fail("an unknown unit is accepted")
    ctx.nontrivial()
    ctx.label(units, 'scalar' if shape == () else 'array')


def check_pure(c, ctx):
    n = c['n']
    col = lambda k, i: np.array(c['rows'][k][i * n:(i + 1) * n])
    A, B = ([col(k, i) for k in range(5)] for i in (0, 1))
    pick = lambda x, *ks: [x[k] for k in ks]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for u in ('earth', 'jupiter'):
            pure.law("Msini " + u, lambda *x: utils.Msini(*x, Msini_units=u), pick(A, 0, 1, 2, 3), pick(B, 0, 1, 2, 3), rtol=1e-9)
            pure.law("semi_amplitude " + u, lambda *x: utils.semi_amplitude(*x, Msini_units=u), pick(A, 4, 1, 2, 3), pick(B, 4, 1, 2, 3))
            pure.law("density " + u, lambda *x: utils.density(*x, MR_units=u), pick(A, 4, 2), pick(B, 4, 2))
        pure.law("semi_major_axis", lambda *x: utils.semi_major_axis(*x), pick(A, 1, 2), pick(B, 1, 2))
    ctx.nontrivial(n > 1)


pure_case = st.integers(1, 6).flatmap(lambda n: st.fixed_dictionaries(dict(n=st.just(n), rows=st.tuples(*[
    st.lists(s, min_size=2 * n, max_size=2 * n) for s in (gen.logu(0.01, 1e5), gen.logu(0.1, 1e6), gen.logu(0.01, 30.0), gen.fl(0, 0.98), gen.logu(1e-3, 1e4))]))))

SUBCHECKS = [Sub("pure", pure_case, check_pure, quick=60, thorough=1000, case_timeout=30),
             Sub("masses", case, check_msini, quick=1200, thorough=30000, weight=2, case_timeout=20),
             Sub("formulas", case, check_amplitude, quick=600, thorough=15000, case_timeout=20)]
