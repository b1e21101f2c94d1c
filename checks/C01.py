"""C01: the radial velocity of a Keplerian orbit."""
import sys

import numpy as np
from hypothesis import strategies as st

import radvel
import radvel.kepler as rk
import radvel.orbit as ro
from vlib import gen, pure, ref
from vlib.core import Sub, close, close_mod, fail, require

PROPERTY = "C01"
RULE = ("orbits (period, periastron, eccentricity incl. 0, <0, >0.99, omega over several turns, K) with times placed "
        "at generated cycles and phases incl. periastron and apastron; non-trivial: 0 < e and at least two "
        "distinct phases (solver sub-check: an eccentric anomaly that differs from the mean anomaly)")

PHASES = st.one_of(gen.fl(0.0, 1.0), st.sampled_from([0.0, 0.5, 0.25, 0.75, 1e-9, 1 - 1e-9, 1e-5, 1 - 1e-5, 1e-3, 0.999]),
                   gen.fl(-7.0, -1.0).map(lambda v: 10.0 ** v), gen.fl(-7.0, -1.0).map(lambda v: 1 - 10.0 ** v))
ECC = st.one_of(gen.fl(0.0, 0.99), gen.fl(0.9, 0.99), st.sampled_from([0.0, 0.99, 1e-12, 1e-3, 0.5]),
                gen.fl(-1.0, 0.0), gen.fl(0.99, 2.0))
CASE = st.fixed_dictionaries(dict(
    per=st.one_of(gen.logu(0.05, 1e5), gen.fl(0.5, 30.0)),
    tp=st.one_of(gen.fl(-100, 100), gen.fl(2440000, 2470000), st.just(0.0)),
    e=ECC, w=gen.omegas_wide(), k=st.one_of(gen.logu(1e-3, 1e5), gen.fl(-20, 20)),
    pts=st.lists(st.tuples(st.integers(-300, 300), PHASES), min_size=1, max_size=30),
    shift=st.integers(-40, 40)))


def _clamped(e):
    return min(max(e, 0.0), 0.99)


def check_rv(c, ctx):
    per, tp, e, w, k = c["per"], c["tp"], c["e"], c["w"], c["k"]
    t = np.array([tp + per * (n + ph) for n, ph in c["pts"]])
    ec = _clamped(e)
    want = ref.rv(t, per, tp, ec, w, k)
    tol = ref.rv_tol(t, per, tp, ec, k)
    orb = [per, tp, e, w, k]
    t_in, orb_in = t.copy(), np.array(orb)
    for flag in (True, False):
        got = rk.rv_drive(t_in, orb_in, use_c_kepler_solver=flag)
        close(np.broadcast_to(got, t.shape), want, rtol=0, atol=tol, msg="velocity differs from the Keplerian orbit",
              compiled=flag, orbit=orb)
        require(np.all(np.abs(got) <= abs(k) * (1 + ec) * (1 + 1e-9) + 1e-300), "velocity beyond K(1+e)", compiled=flag)
        require(np.array_equal(t_in, t) and np.array_equal(orb_in, np.array(orb)), "rv_drive changed its arguments")
    got = rk.rv_drive(t, orb)
    close(np.broadcast_to(got, t.shape), want, rtol=0, atol=tol, msg="velocity (default solver)", orbit=orb)
    # one epoch at a time
    if len(t) > 1:
        one = np.array([float(np.squeeze(rk.rv_drive(t[i:i + 1], orb))) for i in range(min(3, len(t)))])
        close(one, want[:3], rtol=0, atol=tol[:3], msg="a single epoch gives another velocity than the series")
        rev = rk.rv_drive(t[::-1], orb)
        close(rev, want[::-1], rtol=0, atol=tol[::-1], msg="the velocities depend on the order of the epochs")
    t2 = t + per * c["shift"]
    tol2 = tol + ref.rv_tol(t2, per, tp, ec, k)
    close(np.broadcast_to(rk.rv_drive(t2, orb), t.shape), want, rtol=0, atol=tol2, msg="not periodic", shift=c["shift"])
    ctx.label("e=0" if e == 0 else "e<0" if e < 0 else "e>.99" if e > 0.99 else "e>.9" if e > 0.9 else "0<e<.9")
    ctx.nontrivial(ec > 0 and len(set(p for _, p in c["pts"])) > 1)


def _long(x):
    c, n, sort = x
    p0 = [q[1] for q in c["pts"]]
    ph = [(u + p0[i % len(p0)]) % 1.0 for i, u in enumerate(gen.scatter(n, c["per"], c["e"]))]
    cyc = [int(40 * u) - 20 for u in gen.scatter(n, c["e"], c["per"])]
    pts = list(zip(cyc, ph))
    return dict(c, pts=[list(q) for q in (sorted(pts) if sort else pts)])


# long series, around the sizes at which implementations like to switch
LONG = st.tuples(CASE, st.one_of(st.integers(100, 6000), st.sampled_from(
    [127, 128, 129, 256, 500, 512, 999, 1000, 1001, 1024, 2000, 4096, 5000])), st.booleans()).map(_long)


def check_noext(c, ctx):
    """Without the compiled solver the default call gives the same velocities."""
    per, tp, e, w, k = c["per"], c["tp"], c["e"], c["w"], c["k"]
    t = np.array([tp + per * (n + ph) for n, ph in c["pts"]])
    ec = _clamped(e)
    mod, attr = sys.modules.get("radvel._kepler"), getattr(radvel, "_kepler", None)
    sys.modules["radvel._kepler"] = None
    if attr is not None:
        del radvel._kepler
    try:
        got = rk.rv_drive(t, [per, tp, e, w, k])
    finally:
        sys.modules["radvel._kepler"] = mod
        if attr is not None:
            radvel._kepler = attr
    close(np.broadcast_to(got, t.shape), ref.rv(t, per, tp, ec, w, k), rtol=0,
          atol=ref.rv_tol(t, per, tp, ec, k), msg="velocity without the compiled solver")
    ctx.nontrivial(ec > 0 and len(t) > 1)


KEP = st.fixed_dictionaries(dict(pairs=st.lists(
    st.tuples(st.one_of(gen.fl(0, 2 * np.pi), gen.fl(-2 * np.pi, 4 * np.pi), PHASES.map(lambda p: p * 2 * np.pi)),
              st.one_of(gen.fl(0, 0.99), gen.fl(0.9, 0.99), st.sampled_from([0.0, 0.99]))), min_size=1, max_size=40)))


def check_kepler(c, ctx):
    M = np.array([p[0] for p in c["pairs"]])
    e = np.array([p[1] for p in c["pairs"]])
    M0, e0 = M.copy(), e.copy()
    E = np.atleast_1d(rk.kepler(M, e))
    require(np.array_equal(M, M0) and np.array_equal(e, e0), "kepler changed its arguments")
    require(E.shape == M.shape, "shape", got=E.shape)
    close(E - e * np.sin(E), M, rtol=0, atol=2e-12 + 1e-15 * np.abs(M), msg="E - e sin E != M")
    require(np.all(np.abs(E - M) <= e + 1e-11), "|E-M| > e")
    ctx.nontrivial(np.any(np.abs(E - M) > 1e-3))
    ctx.label("e>.95" if e.max() > 0.95 else "e<=.95")


def check_nu(c, ctx):
    per, tp, w, k = c["per"], c["tp"], c["w"], c["k"]
    e = _clamped(c["e"])
    t = np.array([tp + per * (n + ph) for n, ph in c["pts"]])
    got = np.broadcast_to(ro.true_anomaly(t, tp, per, e), t.shape)
    want = ref.true_anomaly(t, tp, per, e)
    tol = ref.rv_tol(t, per, tp, e, 1.0)
    d = (got - want) / (2 * np.pi)
    d = np.abs(d - np.round(d)) * 2 * np.pi
    require(np.all(d <= tol), "true anomaly", e=e, t=t, got=got, want=want)
    ctx.nontrivial(e > 0)


def check_pure(c, ctx):
    a, b = c
    n = min(len(a["pts"]), len(b["pts"]))
    args = []
    for x in (a, b):
        t = np.array([x["tp"] + x["per"] * (i + ph) for i, ph in x["pts"][:n]])
        args.append([t, np.array([x["per"], x["tp"], x["e"], x["w"], x["k"]])])
    tol = max(float(np.max(ref.rv_tol(x[0], x[1][0], x[1][1], _clamped(x[1][2]), x[1][4]))) for x in args)
    for flag in (True, False):
        pure.law("rv_drive compiled=%s" % flag, lambda t, o: rk.rv_drive(t, o, use_c_kepler_solver=flag), args[0], args[1], atol=tol)
    nu = [[x[0], x[1][1], x[1][0], _clamped(x[1][2])] for x in args]
    tol = max(float(np.max(ref.rv_tol(x[0], x[2], x[1], x[3], 1.0))) for x in nu)
    if all(abs(np.abs(ref.true_anomaly(*x)) - np.pi).min() > 1e-3 for x in nu):
        pure.law("true_anomaly", lambda *x: ro.true_anomaly(*x), nu[0], nu[1], atol=tol)
    ms = [[2 * np.pi * (x[0] - x[1][1]) / x[1][0] % (2 * np.pi), np.full(n, _clamped(x[1][2]))] for x in args]
    pure.law("kepler", lambda *x: rk.kepler(*x), ms[0], ms[1], atol=1e-10)
    ctx.nontrivial(n > 1 and min(nu[0][3], nu[1][3]) > 0)


SUBCHECKS = [
    Sub("pure", st.tuples(CASE, CASE), check_pure, quick=120, thorough=1500, case_timeout=30),
    Sub("rv", CASE, check_rv, quick=1500, thorough=15000, case_timeout=30, weight=5),
    Sub("long", LONG, check_rv, quick=60, thorough=600, case_timeout=30),
    Sub("noext", CASE, check_noext, quick=250, case_timeout=30),
    Sub("kepler", KEP, check_kepler, quick=1500, thorough=15000, case_timeout=30),
    Sub("true_anomaly", CASE, check_nu, quick=400, case_timeout=30),
]
