"""C02: conjunction and periastron times."""
import numpy as np
from hypothesis import strategies as st

import radvel.orbit as ro
from radvel.kepler import rv_drive
from vlib import gen, pure, ref
from vlib.core import Sub, close, close_mod, fail, require

PROPERTY = "C02"
RULE = ("orbits with eccentricity in [0, 0.97] and omega over several turns, as scalars and as arrays; non-trivial: "
        "eccentric (e > 0.01)")

ORB = st.fixed_dictionaries(dict(
    per=st.one_of(gen.logu(0.1, 1e4), gen.fl(1, 30)), t0=st.one_of(gen.fl(-500, 500), gen.fl(2440000, 2470000)),
    e=st.one_of(gen.fl(0, 0.97), st.sampled_from([0.0, 0.1, 0.5])),
    w=st.one_of(gen.omegas_wide(), st.sampled_from([0.0, np.pi / 2 - 0.01, np.pi / 2 + 0.01, np.pi, -np.pi / 2, 3 * np.pi / 2, 2.0, 5.0])),
    k=gen.amps()))


def _tol(per, t0, e):
    return 1e-9 * per / (1 - e) + 1e-15 * 16 * (abs(t0) + per)


def check_scalar(c, ctx):
    per, t0, e, w = c["per"], c["t0"], c["e"], c["w"]
    # near omega = 3pi/2 (mod 2 pi) conjunction is at apastron, where the half-angle tangent is singular
    tol = _tol(per, t0, e)
    tp = float(ro.timetrans_to_timeperi(t0, per, e, w))
    close_mod(tp, float(ref.tp_from_tc(t0, per, e, w)), per, tol, msg="time of periastron from time of transit", e=e, w=w)
    tc = float(ro.timeperi_to_timetrans(t0, per, e, w))
    close_mod(tc, float(ref.tc_from_tp(t0, per, e, w)), per, tol, msg="time of transit from time of periastron", e=e, w=w)
    require(abs(tc - t0) <= per / 2 + tol and abs(tp - t0) <= per / 2 + tol,
            "not the conjunction/periastron nearest in phase", tc=tc, tp=tp, t0=t0, per=per)
    close(ro.timeperi_to_timetrans(tp, per, e, w), t0, rtol=0, atol=2 * tol, msg="tc -> tp -> tc")
    close(ro.timetrans_to_timeperi(tc, per, e, w), t0, rtol=0, atol=2 * tol, msg="tp -> tc -> tp")
    # secondary eclipse: superior conjunction, the first after periastron
    for arg in (t0, np.float64(t0)):
        ts = float(ro.timeperi_to_timetrans(arg, per, e, w, secondary=True))
        want = float(ref.time_of_true_anomaly(3 * np.pi / 2 - w, per, t0, e))
        close_mod(ts, want, per, tol, msg="secondary eclipse time", e=e, w=w)
        require(-tol <= ts - t0 <= per + tol, "secondary eclipse is not within one period after periastron",
                ts=ts, tp=t0, per=per, w=w)
    ctx.nontrivial(e > 0.01)
    ctx.label("e=0" if e == 0 else "e>0")


def check_geometry(c, ctx):
    """At conjunction nu+omega = pi/2 (transit) or 3pi/2 (eclipse); there the velocity is K e cos(omega)."""
    per, e, w, k = c["per"], c["e"], c["w"], c["k"]
    t0 = c["t0"]
    tc = ro.timeperi_to_timetrans(t0, per, e, w)
    ts = ro.timeperi_to_timetrans(t0, per, e, w, secondary=True)
    for t, s in ((tc, 1.0), (ts, -1.0)):
        nu = float(np.squeeze(ro.true_anomaly(np.array([float(t)]), t0, per, e)))
        tol = 1e-8 / (1 - e) ** 2 + 1e-14 * (abs(t0) / per + 1) / (1 - e) ** 2
        close(np.sin(nu + w), s, rtol=0, atol=tol ** 2 + 1e-9 + tol * 1e-3, msg="not at conjunction", nu=nu, w=w)
        close(np.cos(nu + w), 0.0, rtol=0, atol=tol, msg="not at conjunction", nu=nu, w=w)
        v = rv_drive(np.array([float(t)]), [per, t0, e, w, k])[0]
        close(v, k * e * np.cos(w), rtol=0, atol=k * tol, msg="velocity at conjunction")
    ctx.nontrivial(e > 0.01)


ARR = st.fixed_dictionaries(dict(per=st.one_of(gen.logu(0.5, 1e3)),
                                 rows=st.lists(st.tuples(gen.fl(-50, 50), gen.fl(0, 0.95), gen.omegas_wide(),
                                                         gen.logu(0.5, 1e3)), min_size=1, max_size=12)))


def check_array(c, ctx):
    t0, e, w, per = (np.array(v, float) for v in zip(*c["rows"]))
    ins = [v.copy() for v in (t0, e, w, per)]
    for nm, fn in (("tp", ro.timetrans_to_timeperi), ("tc", ro.timeperi_to_timetrans),
                   ("ts", lambda *a: ro.timeperi_to_timetrans(*a, secondary=True))):
        arr = fn(t0, per, e, w)
        one = np.array([float(fn(np.float64(a), np.float64(p), np.float64(b), np.float64(g)))
                        for a, p, b, g in zip(t0, per, e, w)])
        close(arr, one, rtol=1e-12, atol=1e-12, msg="array and scalar conversions disagree", which=nm)
        require(all(np.array_equal(a, b) for a, b in zip(ins, (t0, e, w, per))), "arguments changed", which=nm)
    want = np.array([float(ref.tc_from_tp(a, p, b, g)) for a, p, b, g in zip(t0, per, e, w)])
    d = (ro.timeperi_to_timetrans(t0, per, e, w) - want) / per
    require(np.all(np.abs(d - np.round(d)) < 1e-8 / (1 - e)), "array conversion", d=d)
    ctx.nontrivial(len(t0) > 1 and np.any(e > 0.01))


def check_pure(c, ctx):
    (t1, e1, w1, p1), (t2, e2, w2, p2) = (tuple(np.array(v, float) for v in zip(*x["rows"])) for x in c)
    n = min(len(t1), len(t2))
    one, two = [x[:n] for x in (t1, p1, e1, w1)], [x[:n] for x in (t2, p2, e2, w2)]
    for nm, fn in (("tp", lambda *x: ro.timetrans_to_timeperi(*x)), ("tc", lambda *x: ro.timeperi_to_timetrans(*x)),
                   ("ts", lambda *x: ro.timeperi_to_timetrans(*x, secondary=True))):
        pure.law(nm, fn, one, two, rtol=1e-12, atol=1e-10)
    ctx.nontrivial(n > 1 and np.any(e1 > 0.01))


SUBCHECKS = [
    Sub("pure", st.tuples(ARR, ARR), check_pure, quick=120, thorough=1500),
    Sub("scalar", ORB, check_scalar, quick=2000, thorough=20000),
    Sub("geometry", ORB, check_geometry, quick=1200, thorough=12000),
    Sub("array", ARR, check_array, quick=600),
]
