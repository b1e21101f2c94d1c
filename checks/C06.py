"""C06: the RV likelihood."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import radvel
from radvel.likelihood import loglike_jitter
from vlib import conf, gen, hist, rvx
from vlib.core import Sub, close, fail, require

PROPERTY = "C06"
RULE = ("one instrument with 1-20 observations, any orbit/trend, covariates with overlapping names; non-trivial: jitter or a "
        "decorrelation term is non-zero and there are at least two observations")

DV = ["air", "airmass", "bis", "s", "a", "x_y", "fwhm_r"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 20))
    col = st.lists(gen.fl(-50, 50), min_size=n, max_size=n)
    vs = draw(st.lists(st.sampled_from(DV), max_size=3, unique=True))
    return dict(
        orbits=draw(st.lists(gen.orbit(), min_size=0, max_size=2)), basis=draw(st.sampled_from(rvx.BASES)),
        dvdt=draw(gen.fl(-1, 1)), curv=draw(gen.fl(-0.05, 0.05)), time_base=draw(gen.fl(-10, 10)),
        t=draw(st.lists(gen.fl(-50, 150), min_size=n, max_size=n)), v=draw(col),
        err=draw(st.lists(gen.logu(0.05, 30), min_size=n, max_size=n)), gamma=draw(gen.fl(-100, 100)),
        jit=draw(st.one_of(gen.logu(0.01, 50), st.just(0.0))),
        decorr=[dict(var=v, c1=draw(gen.fl(-5, 5)), vec=draw(col)) for v in vs],
        bad=draw(st.sampled_from([None, None, None, 0, 1])),
        sfx=draw(st.sampled_from(["", "_j", "_hires_post", "x"])), gamma2=draw(gen.fl(-100, 100)), jit2=draw(gen.logu(0.01, 50)),
        rot=draw(st.integers(0, 19)), predefined=draw(st.booleans()))


def _make(c, order=None, ints=False):
    params = rvx.make_params(c["basis"], c["orbits"], dict(dvdt=c["dvdt"], curv=c["curv"]))
    s = c["sfx"]
    if c["predefined"]:
        params["jit" + s] = radvel.Parameter(value=0.0)
        params["gamma" + s] = radvel.Parameter(value=0.0)
    mod = radvel.RVModel(params, time_base=c["time_base"])
    o = np.arange(len(c["t"])) if order is None else np.asarray(order)
    dvec = {d["var"]: np.array(d["vec"])[o] for d in c["decorr"]}
    if c["bad"] is not None and c["bad"] < len(c["decorr"]):
        dvec[c["decorr"][c["bad"]]["var"]][0] = np.nan
    like = radvel.likelihood.RVLikelihood(mod, np.array(c["t"])[o], np.array(c["v"])[o], np.array(c["err"])[o], suffix=s,
                                          decorr_vars=[d["var"] for d in c["decorr"]], decorr_vectors=dvec)
    _set(like, c, c["gamma"], c["jit"])
    return like


def _set(like, c, gamma, jit, scale=1.0):
    s, vec = c["sfx"], like.vector
    vec.vector[vec.indices["gamma" + s]][0] = gamma
    vec.vector[vec.indices["jit" + s]][0] = jit
    for d in c["decorr"]:
        vec.vector[vec.indices["c1_" + d["var"] + s]][0] = d["c1"] * scale


def _want(c, gamma, jit, scale=1.0):
    t, v, err = (np.array(c[k]) for k in ("t", "v", "err"))
    r = v - rvx.total_rv(t, c["orbits"], c["dvdt"], c["curv"], c["time_base"]) - gamma
    for i, d in enumerate(c["decorr"]):
        vec = np.array(d["vec"])
        if c["bad"] != i:
            r = r - scale * d["c1"] * (vec - vec.mean())
    sd = np.sqrt(err ** 2 + jit ** 2)
    tol = rvx.total_tol(t, c["orbits"])
    for o in c["orbits"]:
        tol = tol + o["k"] * (1e-10 + 4e-15 * (np.abs(t) + abs(o["tp"]) + o["per"]) / o["per"]) * 10 / (1 - o["e"]) ** 2.5
    tol = tol + 1e-12 * (np.abs(r) + abs(gamma) + 500 + np.abs(v) + 0.05 * t ** 2)
    ll = float(np.sum(norm.logpdf(r, 0, sd)))
    lltol = float(np.sum(2 * np.abs(r) / sd ** 2 * tol + tol ** 2 / sd ** 2)) + 1e-11 * (np.sum(r ** 2 / sd ** 2) + 10 * len(r))
    return r, sd, tol, ll, lltol


def _check(like, c, gamma, jit, msg, scale=1.0):
    r, sd, tol, ll, lltol = _want(c, gamma, jit, scale)
    close(like.residuals(), r, rtol=0, atol=tol, msg=msg + ": residuals")
    close(like.errorbars(), sd, rtol=1e-12, atol=0, msg=msg + ": error bars")
    close(like.logprob(), ll, rtol=0, atol=lltol, msg=msg + ": log-likelihood")
    close(like.neglogprob(), -ll, rtol=0, atol=lltol, msg=msg + ": negative log-likelihood")


def check(c, ctx):
    like = _make(c)
    data = [np.array(c[k]) for k in ("t", "v", "err")]
    _check(like, c, c["gamma"], c["jit"], "first evaluation")
    _set(like, c, c["gamma2"], c["jit2"], 0.5)
    _check(like, c, c["gamma2"], c["jit2"], "after a parameter change", 0.5)
    _set(like, c, c["gamma"], -c["jit"])
    _check(like, c, c["gamma"], c["jit"], "negative jitter")
    require(all(np.array_equal(a, b) for a, b in zip(data, (like.x, like.y, like.yerr))), "the data were changed")
    require(list(like.telvec) == [c["sfx"].lstrip("_")] * len(c["t"]), "instrument labels", got=list(like.telvec))
    # order of the observations
    n = len(c["t"])
    order = [(i * 7 + c["rot"]) % n for i in range(n)] if n % 7 else list(range(n))[::-1]
    if c["bad"] is None:
        l2 = _make(c, order)
        r, sd, tol, ll, lltol = _want(c, c["gamma"], c["jit"])
        close(l2.logprob(), ll, rtol=0, atol=lltol, msg="log-likelihood depends on the order of the data")
        close(l2.residuals(), r[order], rtol=0, atol=tol[order], msg="residuals of reordered data")
    # the array interface
    l3 = _make(c)
    l3.list_vary_params()
    x0 = np.array(l3.get_vary_params())
    names = l3.name_vary_params()
    x = x0.copy()
    x[names.index("gamma" + c["sfx"])] = c["gamma2"]
    x[names.index("jit" + c["sfx"])] = c["jit2"]
    r, sd, tol, ll, lltol = _want(c, c["gamma2"], c["jit2"])
    close(l3.logprob_array(x), ll, rtol=0, atol=lltol, msg="logprob_array")
    r, sd, tol, ll, lltol = _want(c, c["gamma"], c["jit"])
    close(l3.neglogprob_array(x0), -ll, rtol=0, atol=lltol, msg="neglogprob_array after another array")
    ctx.nontrivial(len(c["t"]) > 1 and (c["jit"] > 0 or any(d["c1"] for d in c["decorr"])))
    ctx.label("decorr=%d" % len(c["decorr"]), "jit=0" if c["jit"] == 0 else "jit>0")


def _long(x):
    c, n = x
    k = len(c["t"])
    u = [gen.scatter(n, c["t"][0], i) for i in range(4)]
    out = dict(c, t=[-50 + 200 * a for a in u[0]], v=[c["v"][i % k] + 10 * (a - 0.5) for i, a in enumerate(u[1])],
               err=[c["err"][i % k] * (0.5 + a) for i, a in enumerate(u[2])])
    out["decorr"] = [dict(d, vec=[d["vec"][i % k] + 5 * (a - 0.5) for i, a in enumerate(u[3])]) for d in c["decorr"]]
    return out


# long series, around the sizes at which implementations like to switch
LONG = st.tuples(case(), st.one_of(st.integers(50, 3000), st.sampled_from([128, 129, 256, 500, 1000, 1001, 1024, 2048]))).map(_long)


def check_fn(c, ctx):
    r, s = (np.array(v) for v in zip(*c["rows"]))
    close(loglike_jitter(r, s, c["jit"]), float(np.sum(norm.logpdf(r, 0, np.hypot(s, c["jit"])))), rtol=1e-10, atol=1e-10,
          msg="loglike_jitter")
    ctx.nontrivial(len(r) > 1 and c["jit"] != 0)


FN = st.fixed_dictionaries(dict(rows=st.lists(st.tuples(gen.fl(-1e3, 1e3), gen.logu(1e-3, 1e3)), min_size=1, max_size=30),
                                jit=st.one_of(st.just(0.0), gen.fl(-100, 100))))
SUBCHECKS = [Sub("likelihood", case(), check, quick=800, thorough=8000, weight=3),
             Sub("long", LONG, check, quick=60, thorough=600),
             Sub("history", hist.case(('rv', 'decorr')), hist.run, quick=150, thorough=2500, weight=2),
             Sub("jitter", FN, check_fn, quick=500, thorough=5000)]
