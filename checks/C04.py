"""C04: the RV model is the sum of its planets and the trend."""
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import gen, pure, ref, rvx
from vlib.core import Sub, close, fail, require

PROPERTY = "C04"
RULE = ("0-5 planets in any fitting basis, trend terms present or absent, any time base, unsorted epochs; non-trivial: at "
        "least two planets, or one planet and a non-zero trend")

ORB = gen.orbit()
TREND = st.one_of(st.none(), st.just(0.0), gen.fl(-2.0, 2.0))
CASE = st.fixed_dictionaries(dict(
    orbits=st.lists(ORB, min_size=1, max_size=5), basis=st.sampled_from(rvx.BASES),
    dvdt=TREND, curv=st.one_of(st.none(), st.just(0.0), gen.fl(-0.1, 0.1)),
    time_base=st.one_of(gen.fl(-100, 100), st.just(0.0)), off=st.sampled_from([0.0, 0.0, 2450000.0]),
    t=st.lists(gen.fl(-60, 120), min_size=1, max_size=25),
    extra=st.lists(st.sampled_from(["gamma_a", "jit_a", "gp_amp", "logjit_b", "foo"]), max_size=3, unique=True),
    order=st.integers(0, 5), new=ORB))


CASE0 = st.one_of(CASE, CASE.map(lambda c: dict(c, orbits=c["orbits"][:2])), CASE.map(lambda c: dict(c, orbits=[])))


def _build(c):
    off = c["off"]
    orbits = [dict(o, tp=o["tp"] + off) for o in c["orbits"]]
    params = rvx.make_params(c["basis"], orbits)
    # trend terms and instrument parameters in a generated order
    names = [n for n in ("dvdt", "curv") if c[n] is not None] + list(c["extra"])
    k = c["order"] % max(1, len(names))
    for n in names[k:] + names[:k]:
        params[n] = radvel.Parameter(value=c[n] if n in ("dvdt", "curv") else 3.25)
    return params, orbits


def _tol(t, orbits, c):
    tol = rvx.total_tol(t, orbits)
    for o in orbits:
        # tc round trip and phase accuracy at large epochs
        tol = tol + o["k"] * (1e-10 + 4e-15 * (np.abs(t) + abs(o["tp"]) + o["per"]) / o["per"]) * 10 / (1 - o["e"]) ** 2.5
    tb = np.abs(t - c["time_base"] - c["off"])
    return tol + 1e-12 * (abs(c["dvdt"] or 0) * tb + abs(c["curv"] or 0) * tb ** 2)


def check_sum(c, ctx):
    params, orbits = _build(c)
    t = np.array(c["t"]) + c["off"]
    tb = c["time_base"] + c["off"]
    mod = radvel.RVModel(params, time_base=tb)
    snap = rvx.snapshot(params)
    vec0 = mod.vector.vector.copy()
    dvdt, curv = c["dvdt"] or 0.0, c["curv"] or 0.0
    tol = _tol(t, orbits, c)
    t0 = t.copy()
    trend = dvdt * (t - tb) + curv * (t - tb) ** 2
    got = mod(t)
    close(got, rvx.total_rv(t, orbits) + trend, rtol=0, atol=tol, msg="model is not planets + trend", basis=c["basis"])
    parts = np.zeros(len(t))
    for i, o in enumerate(orbits):
        one = mod(t, planet_num=i + 1)
        close(one, rvx.total_rv(t, [o]) + trend, rtol=0, atol=tol, msg="single planet", planet=i + 1)
        parts += one - trend
    close(got - trend, parts, rtol=0, atol=tol, msg="planets do not add up")
    close(mod(t), got, rtol=0, atol=0, msg="second evaluation differs")
    close(mod(t[::-1])[::-1], got, rtol=0, atol=tol, msg="depends on the order of epochs")
    require(np.array_equal(t, t0), "the epochs were changed")
    require(rvx.snapshot(params) == snap, "evaluation changed the parameters")
    require(np.array_equal(mod.vector.vector, vec0), "evaluation changed the parameter vector")
    require(mod.num_planets == len(orbits), "number of planets")
    ctx.nontrivial(len(orbits) > 1 or dvdt != 0 or curv != 0)
    ctx.label("planets=%d" % len(orbits), "trend" if dvdt or curv else "no trend", c["basis"])


MANY = st.tuples(CASE, st.integers(10, 12)).map(lambda x: dict(x[0], orbits=[
    dict(o, per=o["per"] * (1 + 0.07 * i), k=o["k"] * (1 + 0.05 * i), tp=o["tp"] + 0.3 * i)
    for i in range(x[1]) for o in [x[0]["orbits"][i % len(x[0]["orbits"])]]]))

# long series, around the sizes at which implementations like to switch
LONG = st.tuples(CASE, st.one_of(st.integers(100, 6000), st.sampled_from([127, 128, 129, 256, 500, 512, 999, 1000, 1001,
                                                                          1024, 2000, 4096, 5000])),
                 st.booleans()).map(lambda x: dict(x[0], orbits=x[0]["orbits"][:2], t=_long(x[0]["t"], x[1], x[2])))


def _long(t, n, sort):
    u = gen.scatter(n, t[0], t[-1])
    v = [-60 + 180 * x for x in u]
    return sorted(v) if sort else v


def check_update(c, ctx):
    """The vector is what counts: new values in the vector give the new model; then back."""
    params, orbits = _build(c)
    t = np.array(c["t"]) + c["off"]
    tb = c["time_base"] + c["off"]
    mod = radvel.RVModel(params, time_base=tb)
    dvdt, curv = c["dvdt"] or 0.0, c["curv"] or 0.0
    trend = dvdt * (t - tb) + curv * (t - tb) ** 2
    first = mod(t)
    j = c["order"] % len(orbits)
    new = dict(c["new"], tp=c["new"]["tp"] + c["off"])
    old_rows = mod.vector.vector.copy()
    for p, v in rvx.encode(c["basis"], new).items():
        mod.vector.vector[mod.vector.indices["%s%d" % (p, j + 1)]][0] = v
    orb2 = list(orbits)
    orb2[j] = new
    tol = _tol(t, orb2, c)
    close(mod(t), rvx.total_rv(t, orb2) + trend, rtol=0, atol=tol, msg="model does not follow the vector", planet=j + 1)
    # trend terms through the vector, even if they were not among the named parameters
    mod.vector.vector[mod.vector.indices["dvdt"]][0] = 0.75
    mod.vector.vector[mod.vector.indices["curv"]][0] = -0.01
    tr2 = 0.75 * (t - tb) - 0.01 * (t - tb) ** 2
    close(mod(t), rvx.total_rv(t, orb2) + tr2, rtol=0, atol=tol + 1e-12 * np.abs(tr2), msg="trend through the vector")
    mod.vector.vector[:] = old_rows
    close(mod(t), first, rtol=0, atol=0, msg="history dependence")
    ctx.nontrivial(new["k"] != orbits[j]["k"])


def check_general(c, ctx):
    """A user's forward model: called with the epochs and parameters, the trend added to what it returns."""
    params, orbits = _build(c)
    params["foo2"] = radvel.Parameter(value=1.5)
    t = np.array(c["t"]) + c["off"]
    tb = c["time_base"] + c["off"]
    seen = []

    def fwd(tt, pp, vv, *args, **kw):
        seen.append((np.array(tt), pp, vv, args, dict(kw)))
        return pp["foo2"].value * np.cos(np.asarray(tt) - c["off"]) + kw.get("add", 0.0) + sum(args)
    mod = radvel.GeneralRVModel(params, fwd, time_base=tb)
    dvdt, curv = c["dvdt"] or 0.0, c["curv"] or 0.0
    trend = dvdt * (t - tb) + curv * (t - tb) ** 2
    base = 1.5 * np.cos(t - c["off"])
    at = 1e-12 * (10 + np.abs(trend))
    close(mod(t), base + trend, rtol=0, atol=at, msg="forward model + trend")
    close(mod(t, add=2.0), base + 2 + trend, rtol=0, atol=at, msg="forward model with keyword")
    close(mod(t, 1.0, 3.0), base + 4 + trend, rtol=0, atol=at, msg="forward model with positional arguments")
    require(np.array_equal(seen[0][0], t) and seen[0][1] is params and seen[0][2] is mod.vector,
            "forward model called with something else")
    cache = np.array(base)
    mod2 = radvel.GeneralRVModel(params, lambda tt, pp, vv: cache, time_base=tb)
    for _ in range(2):
        close(mod2(t), base + trend, rtol=0, atol=at, msg="forward model that returns a stored array")
    require(np.array_equal(cache, base), "the array returned by the forward model was changed")
    ctx.nontrivial(dvdt != 0 or curv != 0)


def check_pure(c, ctx):
    params, orbits = _build(c)
    t = np.array(c["t"]) + c["off"]
    u = np.roll(t, 1) * 1.01 + 3.0
    mod = radvel.RVModel(params, time_base=c["time_base"] + c["off"])
    tol = float(np.max(_tol(t, orbits, c))) + 1e-12
    pure.law("model", lambda x: mod(x), [t], [u], atol=tol)
    for i in range(len(orbits)):
        pure.law("planet %d" % (i + 1), lambda x: mod(x, planet_num=i + 1), [t], [u], atol=tol)
    gen_ = radvel.GeneralRVModel(params, lambda tt, pp, vv: 2.0 * tt, time_base=c["time_base"] + c["off"])
    pure.law("forward model", lambda x: gen_(x), [t], [u], atol=tol)
    ctx.nontrivial(len(orbits) > 1 or bool(c["dvdt"] or c["curv"]))


SUBCHECKS = [
    Sub("pure", CASE0, check_pure, quick=100, thorough=1000),
    Sub("sum", CASE0, check_sum, quick=900, thorough=9000, weight=3),
    Sub("many", MANY, check_sum, quick=120, thorough=1200),
    Sub("long", LONG, check_sum, quick=60, thorough=600),
    Sub("update", CASE, check_update, quick=600, thorough=6000),
    Sub("general", CASE, check_general, quick=400, thorough=3000),
]
