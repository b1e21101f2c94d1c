"""C07: analytically marginalised offsets."""
import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen, rvx
from vlib.core import Sub, close, fail, require

PROPERTY = "C07"
RULE = ("one to three instruments, each with a linear or an explicit offset, any orbit, trend, jitter, decorrelation; "
        "non-trivial: a linear offset with unequal error bars and at least two observations")

CASE = st.fixed_dictionaries(dict(
    conf=conf.config(kinds=("rv", "decorr"), nmin=1, nmax=10, linear=True).map(
        lambda c: dict(c, insts=[dict(i, linear=bool(i["linear"] or j == 0)) for j, i in enumerate(c["insts"])])),
    # up to absolute velocities of hundreds of km/s
    shift=st.lists(st.one_of(gen.fl(-50, 50), gen.logu(1e2, 5e5), gen.logu(1e2, 5e5).map(lambda x: -x)), min_size=3, max_size=3),
    jit2=gen.fl(0.05, 8)))


def _integral(like, g, ctr, sig):
    """log of the integral over the offset of the likelihood with the offset as an explicit parameter (trapezoid rule on a
    Gaussian: spectrally accurate)."""
    gi, lin = like.gamma_index, like.vector.vector[like.gamma_index][3]
    old = like.vector.vector[gi].copy()
    like.vector.vector[gi][3] = 0
    grid = ctr + sig * np.linspace(-12, 12, 121)
    ll = []
    for x in grid:
        like.vector.vector[gi][0] = x
        ll.append(like.logprob())
    like.vector.vector[gi] = old
    ll = np.array(ll)
    m = ll.max()
    return m + np.log(np.sum(np.exp(ll - m)) * (grid[1] - grid[0])), grid[int(np.argmax(ll))]


def check(c, ctx):
    post, vals = conf.build(c["conf"])
    likes = post.likelihood.like_list if c["conf"]["composite"] else [post.likelihood]
    v = conf.values_of(vals)
    nt = False
    for rnd in range(2):
        for ins, like, sh in zip(c["conf"]["insts"], likes, c["shift"]):
            s = "_" + ins["name"]
            if rnd == 1:
                v["jit" + s] = c["jit2"]
                like.vector.vector[like.jit_index][0] = c["jit2"]
            if not ins["linear"]:
                continue
            # whatever value the offset holds beforehand must not matter
            like.vector.vector[like.gamma_index][0] = sh
            got = like.logprob()
            g = like.vector.vector[like.gamma_index][0]
            r = conf.ref_instrument(c["conf"], ins, v)
            tol = 1e-8 + 1e-9 * abs(r["ll"]) + conf.ll_tol(c["conf"], v)
            sig = 1 / np.sqrt(np.sum(1 / r["var"]))
            close(g, r["gamma"], rtol=1e-8, atol=1e-6 * sig + 1e-8, msg="reported offset is not the optimum", inst=ins["name"])
            close(got, r["ll"], rtol=0, atol=tol, msg="marginalised likelihood (closed form)", inst=ins["name"])
            integ, best = _integral(like, "gamma" + s, g, sig)
            close(got, integ, rtol=1e-8, atol=1e-6 + tol, msg="marginalised likelihood is not the integral over the offset",
                  inst=ins["name"])
            close(best, g, rtol=0, atol=0.21 * sig, msg="reported offset does not maximise the likelihood")
            close(like.logprob(), got, rtol=1e-12, atol=1e-10, msg="second evaluation differs")
            # adding a constant to the data moves the offset and nothing else
            close(like.residuals(), r["resid"], rtol=1e-8, atol=1e-7, msg="residuals")
            like.y = like.y + sh
            close(like.logprob(), got, rtol=1e-9, atol=1e-8 + tol, msg="likelihood changes with a constant added to the data")
            close(like.vector.vector[like.gamma_index][0], g + sh, rtol=1e-9, atol=1e-8 + 1e-6 * sig, msg="offset does not follow a constant")
            like.y = like.y - sh
            nt |= len(ins["t"]) > 1 and len(set(ins["err"])) > 1
            ctx.label("decorr" if ins["decorr"] else "plain")
        # the sum
        close(post.logprob(), conf.ref_loglike(c["conf"], v), rtol=1e-10, atol=1e-8 + conf.ll_tol(c["conf"], v),
              msg="posterior of the combined data set")
        # a varied offset is never marginalised, even if declared linear
    ins, like = c["conf"]["insts"][0], likes[0]
    like.vector.vector[like.gamma_index][1] = 1
    like.vector.vector[like.gamma_index][0] = c["shift"][0]
    v2 = dict(v)
    v2["gamma_" + ins["name"]] = c["shift"][0]
    c2 = dict(c["conf"], insts=[dict(ins, linear=False)])
    close(like.logprob(), conf.ref_loglike(c2, v2), rtol=1e-10, atol=1e-8 + conf.ll_tol(c2, v2),
          msg="a varied offset was marginalised")
    require(like.vector.vector[like.gamma_index][0] == c["shift"][0], "a varied offset was overwritten")
    ctx.nontrivial(nt)
    ctx.label("insts=%d" % len(likes))


LONG = st.tuples(CASE, conf.LENGTHS).map(lambda t: dict(t[0], conf=conf.lengthen(t[0]["conf"], t[1])))

SUBCHECKS = [Sub("marginal", CASE, check, quick=300, thorough=3000, weight=2),
             Sub("long", LONG, check, quick=40, thorough=500, weight=2)]
