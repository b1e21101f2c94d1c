"""C05: named parameters and parameter vector stay in step (histories)."""
import copy

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import conf, gen
from vlib.core import Sub, close, fail, require

PROPERTY = "C05"
RULE = ("random model configurations (planets, basis, instruments with offsets predefined or not, decorrelation, GP, "
        "user-defined parameter) and sequences of 4-24 operations; non-trivial: at least one array write after a "
        "change of vary flags or of named values")

VAL = st.one_of(gen.fl(-1.0, 1.0), gen.fl(0.1, 0.9))
OP = st.one_of(
    st.tuples(st.just("named"), st.integers(0, 60), VAL),
    st.tuples(st.just("d2v")),
    st.tuples(st.just("v2d")),
    st.tuples(st.just("array"), st.sampled_from(["post", "like"]), st.booleans(), st.lists(VAL, min_size=1, max_size=8)),
    st.tuples(st.just("vary_named"), st.integers(0, 60), st.booleans()),
    st.tuples(st.just("vary_row"), st.integers(0, 60), st.booleans()),
    st.tuples(st.just("unlisted"), st.lists(st.integers(0, 60), min_size=1, max_size=3), st.sampled_from(["post", "like", "prob"]), st.booleans(),
              st.lists(VAL, min_size=1, max_size=8)),
    st.tuples(st.just("scale"), st.integers(0, 60), gen.fl(0.01, 3)),
    st.tuples(st.just("relist")),
    st.tuples(st.just("logprob")),
    st.tuples(st.just("logprob_array"), st.lists(VAL, min_size=1, max_size=8)),
    st.tuples(st.just("repr")),
    st.tuples(st.just("residuals")),
    st.tuples(st.just("copy")),
    st.tuples(st.just("badlen"), st.integers(1, 4), st.booleans()))
CASE = st.fixed_dictionaries(dict(conf=conf.config(nmin=2, nmax=3), ops=st.lists(OP, min_size=4, max_size=24)))


def _safe(name, v, basis):
    """Map a raw value into the parameter's domain, so that evaluations stay well defined."""
    a = abs(v)
    if name.startswith("per") or name.startswith("gp_"):
        return 3.0 + 4 * a
    if name.startswith("logper"):
        return 1.0 + a
    if name.startswith(("secosw", "sesinw", "ecosw", "esinw")):
        return 0.5 * v
    if name.startswith("se") or (name[0] == "e" and name[1:].isdigit()):
        return 0.1 + 0.7 * min(a, 1)
    return v


class World(object):
    def __init__(self, c):
        self.c = c
        self.post, vals = conf.build(c)
        self.D = {k: list(v) for k, v in vals.items()}
        self.V = {k: list(v) for k, v in vals.items()}
        self.names = [k for k in self.post.params]
        self.dim = 0

    def free(self):
        """free names in row order"""
        idx = self.post.vector.indices
        return sorted([n for n in self.V if self.V[n][1]], key=lambda n: idx[n])

    def arr(self, raw):
        f = self.free()
        return [_safe(n, raw[i % len(raw)] * (0.9 ** (i // len(raw))), self.c["basis"]) for i, n in enumerate(f)]

    def check(self, op):
        post, vec = self.post, self.post.vector
        idx = vec.indices
        require(set(self.D) == set(post.params), "parameters lost or created", op=op, got=sorted(post.params))
        rows = [idx[n] for n in self.D]
        require(len(set(rows)) == len(rows), "two parameters share a row", op=op, rows=rows)
        require(max(rows) < len(vec.vector), "row outside the vector")
        for n in self.D:
            r = vec.vector[idx[n]]
            v = self.V[n]
            require(r[0] == v[0], "value in the vector", op=op, name=n, got=r[0], want=v[0])
            require(bool(r[1]) == v[1], "vary flag in the vector", op=op, name=n)
            require(r[2] == (v[2] or 0), "step size in the vector", op=op, name=n, got=r[2], want=v[2])
            require(bool(r[3]) == v[3], "linear flag in the vector", op=op, name=n)
            d, p = self.D[n], post.params[n]
            require(p.value == d[0], "value of the named parameter", op=op, name=n, got=p.value, want=d[0])
            require(bool(p.vary) == d[1] and p.mcmcscale == d[2] and bool(p.linear) == d[3],
                    "flags of the named parameter", op=op, name=n)
            require(vec.names[idx[n]] == n, "name of a row", op=op, row=idx[n], got=vec.names[idx[n]], want=n)
        for n in ("dvdt", "curv"):
            if n not in self.D:
                require(vec.vector[idx[n]][0] == 0 and not vec.vector[idx[n]][1], "absent trend term is not zero", op=op)
                require(vec.names[idx[n]] == n, "name of an absent trend term", op=op)
        f = self.free()
        for who in (post, post.likelihood):
            require(list(who.name_vary_params()) == f, "names of the free parameters", op=op,
                    got=list(who.name_vary_params()), want=f)
            close(who.get_vary_params(), [self.V[n][0] for n in f], rtol=0, atol=0, msg="values of the free parameters")
        require(post.model.vector is vec and post.likelihood.vector is vec and post.params is vec.params,
                "model, likelihood and posterior do not share the vector", op=op)

    def evaluated(self):
        """After an evaluation linear offsets hold their analytic value; GP hyperparameters may be synchronised."""
        vals = {n: v[0] for n, v in self.V.items()}
        for ins in self.c["insts"]:
            g = "gamma_" + ins["name"]
            if ins["linear"]:
                want = conf.ref_instrument(self.c, ins, vals)["gamma"]
                got = self.post.vector.vector[self.post.vector.indices[g]][0]
                close(got, want, rtol=1e-6, atol=1e-6, msg="analytic offset in the vector", name=g)
                self.V[g][0] = float(got)
            if ins["kind"] == "gp":
                for h in conf.KERNELS[ins["kernel"]]:
                    n = conf.hname(ins, h)
                    if self.post.params[n].value == self.V[n][0]:
                        self.D[n][0] = self.V[n][0]

    def run(self, op):
        post, kind = self.post, op[0]
        idx = post.vector.indices
        name = None
        if kind in ("named", "vary_named", "vary_row", "scale"):
            name = self.names[op[1] % len(self.names)]
        if kind == "named":
            v = _safe(name, op[2], self.c["basis"])
            post.params[name].value = v
            self.D[name][0] = v
        elif kind == "d2v":
            self.d2v()
        elif kind == "v2d":
            post.vector.vector_to_dict()
            self.v2d()
        elif kind == "array":
            who = post if op[1] == "post" else post.likelihood
            a = self.arr(op[3])
            who.set_vary_params(a if op[2] else np.array(a), fast=op[2])
            for n, v in zip(self.free(), a):
                self.V[n][0] = v
            if not op[2]:
                self.v2d()
        elif kind == "vary_named":
            if self.D[name][3] or (not op[2] and self.dangerous(name, self.D)):
                return
            post.params[name].vary = op[2]
            self.D[name][1] = op[2]
            self.d2v()
            self.relist()
        elif kind == "vary_row":
            if self.V[name][3] or (not op[2] and self.dangerous(name, self.V)):
                return
            post.vector.vector[idx[name]][1] = op[2]
            self.V[name][1] = op[2]
            self.relist()
        elif kind == "unlisted":
            # the number of free parameters changes in the vector, and an array of the new length comes without list_vary_params
            before = len(self.free())
            for j in op[1]:
                n = self.names[j % len(self.names)]
                if self.V[n][3] or (self.V[n][1] and self.dangerous(n, self.V)):
                    continue
                self.V[n][1] = not self.V[n][1]
                post.vector.vector[idx[n]][1] = self.V[n][1]
            if len(self.free()) == before:
                self.relist()
            a = self.arr(op[4])
            if op[2] == "prob":
                post.logprob_array(np.array(a))
            else:
                (post if op[2] == "post" else post.likelihood).set_vary_params(a, fast=op[3])
            for n, v in zip(self.free(), a):
                self.V[n][0] = v
            if op[2] == "prob":
                self.evaluated()
            elif not op[3]:
                self.v2d()
            self.relist()
        elif kind == "scale":
            post.params[name].mcmcscale = op[2]
            self.D[name][2] = op[2]
            self.d2v()
            self.relist()
        elif kind == "relist":
            self.relist()
        elif kind == "logprob":
            a, b = post.logprob(), post.likelihood.logprob()
            require(a == b, "log-probability without priors is the log-likelihood")
            self.evaluated()
        elif kind == "logprob_array":
            a = self.arr(op[1])
            got = post.logprob_array(np.array(a))
            for n, v in zip(self.free(), a):
                self.V[n][0] = v
            self.evaluated()
            vals = {n: v[0] for n, v in self.V.items()}
            close(got, conf.ref_loglike(self.c, vals), rtol=1e-6, atol=1e-6 + conf.ll_tol(self.c, vals),
                  msg="log-probability of an array")
        elif kind == "repr":
            s = repr(post)
            self.v2d()
            for n in self.D:
                if not n.startswith(("tc", "tp")):
                    line = [l for l in s.split("\n") if l.split(" ")[0] == n]
                    require(len(line) >= 1, "parameter is not printed", name=n)
                    got = line[0].split()[1]
                    require(got == "%g" % self.D[n][0], "printed value", name=n, got=got, want=self.D[n][0])
        elif kind == "residuals":
            post.residuals()
            self.evaluated()
        elif kind == "copy":
            self.post = copy.deepcopy(post)
        elif kind == "badlen":
            twin = copy.deepcopy(post)
            n = len(self.free())
            m = n + op[1] if op[2] else max(0, n - op[1])
            try:
                twin.set_vary_params([0.5] * m)
            except Exception:  # noqa: any rejection will do
                pass
            else:
                fail("an array of the wrong length was accepted", free=n, given=m)

    def dangerous(self, name, side):
        """keep at least one free parameter"""
        return sum(1 for n in side if side[n][1]) <= 1

    def d2v(self):
        self.post.vector.dict_to_vector()
        self.V = {k: list(v) for k, v in self.D.items()}
        self.relist()

    def v2d(self):
        for n in self.D:
            self.D[n][0] = self.V[n][0]

    def relist(self):
        self.post.list_vary_params()
        self.post.likelihood.list_vary_params()


def check(c, ctx):
    w = World(c["conf"])
    w.check("build")
    changed = writes = 0
    for op in c["ops"]:
        w.run(op)
        w.check(op[0])
        if op[0] in ("named", "vary_named", "vary_row"):
            changed = 1
        if op[0] in ("array", "logprob_array") and changed:
            writes += 1
        ctx.label(op[0])
    ctx.nontrivial(writes > 0)


LAY = st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(9, 12)), basis=st.sampled_from(conf.rvx.BASES),
    names=st.lists(st.sampled_from(["gamma", "gamma_j", "jit", "jit_j", "logjit_k", "dvdt", "curv", "gp_amp", "gp_per", "gp_B_j",
                                    "my_param", "offset2", "c1_air_j", "gamma_10", "x1"]), max_size=8, unique=True),
    conv=st.one_of(st.none(), st.sampled_from(conf.rvx.BASES)),
    sfx=st.sampled_from(["", "_j", "_new"]), decorr=st.lists(st.sampled_from(["air", "airmass", "x_y"]), max_size=2, unique=True)))


def check_layout(c, ctx):
    """Layout for arbitrary parameter sets and after basis conversion, before and after a likelihood adds its own."""
    orbits = [dict(per=3.0 + i, tp=1.0 + 0.1 * i, e=0.1 + 0.07 * i, w=0.3 + i, k=2.0 + i) for i in range(c["n"])]
    params = conf.rvx.make_params(c["basis"], orbits, {n: 10.0 + i for i, n in enumerate(c["names"])})
    basis = c["basis"]
    if c["conv"]:
        params = params.basis.to_any_basis(params, c["conv"])
        basis = c["conv"]
    want = {"%s%d" % (p, i + 1): v for i, o in enumerate(orbits) for p, v in conf.rvx.encode(basis, o).items()}
    want.update({n: 10.0 + i for i, n in enumerate(c["names"])})

    def look(vec, names, stage):
        idx = vec.indices
        rows = [idx[n] for n in names]
        require(len(set(rows)) == len(rows), stage + ": two parameters share a row")
        for n in names:
            require(vec.names[idx[n]] == n, stage + ": name of a row", name=n, names=vec.names)
            if n in want:
                close(vec.vector[idx[n]][0], want[n], rtol=1e-11, atol=1e-11, msg=stage + ": value of a row", name=n) \
                    if not n.startswith(("tc", "tp", "w")) else None
            require(vec.vector[idx[n]][0] == params[n].value, stage + ": value of a row", name=n)
    vec = radvel.Vector(params)
    look(vec, list(want), "Vector")
    mod = radvel.RVModel(params)
    like = radvel.likelihood.RVLikelihood(mod, [1., 2.], [1., 2.], [1., 1.], suffix=c["sfx"], decorr_vars=c["decorr"],
                                          decorr_vectors={d: [1., 2.] for d in c["decorr"]})
    new = ["gamma" + c["sfx"], "jit" + c["sfx"]] + ["c1_" + d + c["sfx"] for d in c["decorr"]]
    look(like.vector, sorted(set(list(want) + new)), "RVLikelihood")
    require(set(params) == set(list(want) + new), "parameters of the likelihood", got=sorted(params))
    post = radvel.posterior.Posterior(like)
    vary = [n for n in params if params[n].vary]
    require(sorted(post.name_vary_params()) == sorted(vary), "free parameters", got=post.name_vary_params(), want=vary)
    ctx.nontrivial(len(want) > 0 and len(new) > 2)
    ctx.label("converted" if c["conv"] else "direct")


PRINT = st.fixed_dictionaries(dict(
    orbits=st.lists(gen.orbit(), min_size=1, max_size=3), basis=st.sampled_from(conf.rvx.BASES), epoch=st.sampled_from([0.0, 2450000.0, 2450000.0]),
    base=st.sampled_from([0.0, 2450000.0, 2450012.5]), vary=st.lists(st.booleans(), min_size=20, max_size=20), errors=st.one_of(st.none(), gen.logu(1e-9, 1e3)),
    partial=st.integers(0, 6), extra=st.lists(st.sampled_from(["dvdt", "curv", "foo", "tce", "kick"]), max_size=3, unique=True),
    moved=st.lists(gen.fl(-0.01, 0.01), min_size=8, max_size=8), priors=st.integers(0, 3), what=st.sampled_from(["post", "like"])))


def check_print(c, ctx):
    """The printed table: every parameter once, with its present value, uncertainty and flag, then the elements of the orbit."""
    rvx = conf.rvx
    orbits = [dict(o, tp=o["tp"] + c["epoch"]) for o in c["orbits"]]
    params = rvx.make_params(c["basis"], orbits, {n: (0.1 + i, True) for i, n in enumerate(c["extra"])})
    for i, n in enumerate(params):
        params[n].vary = c["vary"][i % 20]
    params["gamma_j"], params["jit_j"] = radvel.Parameter(value=1234.5678, vary=True), radvel.Parameter(value=-2.5, vary=False)
    mod = radvel.RVModel(params, time_base=c["base"])
    like = radvel.likelihood.RVLikelihood(mod, [c["epoch"] + 1., c["epoch"] + 2.], [1., 2.], [1., 1.], suffix="_j")
    post = radvel.posterior.Posterior(like)
    names = list(params)
    free = [n for n in post.name_vary_params()]
    value = {n: params[n].value for n in names}
    arr = [value[n] * (1 + c["moved"][i % 8] * (not n.startswith(("t", "e")))) for i, n in enumerate(free)]
    post.set_vary_params(arr, fast=True)
    value.update(zip(free, arr))
    post.priors += [radvel.prior.PositiveKPrior(1), radvel.prior.Gaussian("gamma_j", 3.0, 2.0), radvel.prior.HardBounds("jit_j", -5.0, 5.0)][:c["priors"]]
    who = post if c["what"] == "post" else like
    errs = {}
    if c["errors"]:
        errs = {n: c["errors"] * (i + 1) for i, n in enumerate(names) if (i + c["partial"]) % 4}
        if c["partial"] % 2:
            errs.update({p + "1": c["errors"] / 3 for p in ("per", "tp", "e", "w", "k") if p + "1" not in names})
        who.uparams = dict(errs)
    text = repr(who)
    require(repr(who) == text, "printing twice")
    table, _, rest = text.partition("\nPriors\n------\n")
    rows = [l.split() for l in table.strip("\n").split("\n")]
    require(rows[0] == (["parameter", "value", "+/-", "vary"] if c["errors"] else ["parameter", "value", "vary"]), "heading", heading=rows[0])
    synth = {}
    for i in range(len(orbits)):
        o = rvx.decode(c["basis"], {p: value["%s%d" % (p, i + 1)] for p in c["basis"].split()})
        synth.update({"%s%d" % (p, i + 1): o[p] for p in o})
    more = [n for n in synth if n not in names]
    require([r[0] for r in rows[1:]] == names + [r[0] for r in rows[1 + len(names):]], "rows of the parameters", rows=[r[0] for r in rows], names=names)
    require(sorted(r[0] for r in rows[1 + len(names):]) == sorted(more), "rows of the orbital elements", rows=[r[0] for r in rows], expected=more)
    for r in rows[1:]:
        n = r[0]
        x = value[n] if n in value else synth[n]
        if n.startswith(("tc", "tp")) and x > 1e6:
            x -= c["base"]
        p = params[n] if n in value else None
        tol = 0.0
        if n not in value:
            tol = 1e-8 * (1 + abs(x))
            if n.startswith("tp"):
                tol += 1e-7 * synth["per" + n[2:]] / (1 - synth["e" + n[2:]])
            require(len(r) == (3 if c["errors"] else 2), "an orbital element that is no parameter has no flag", row=r)
        else:
            require(r[-1] == str(bool(p.vary)), "printed flag", row=r, vary=p.vary)
        shown = float(r[1])
        d = abs(shown - x)
        if n.startswith("w") and n not in value:
            d = min(d, abs(d - 2 * np.pi))
        if n.startswith("tp") and n not in value:
            per = synth["per" + n[2:]]         # any periastron will do
            tol += 1e-5 * abs(shown)
            d = abs(d - per * np.round(d / per))
        require(d <= 1.01 * 0.5 * 10.0 ** (np.floor(np.log10(max(abs(x), abs(shown), 1e-300))) - 5) + tol, "printed value", row=r, value=x)
        if c["errors"]:
            require(r[2] == "%g" % errs.get(n, 0), "printed uncertainty", row=r, expected=errs.get(n, 0))
    if c["what"] == "post":
        require(rest == "".join(repr(p) + "\n" for p in post.priors), "printed priors", got_text=rest)
    for n in names:
        require(params[n].value == value[n], "printing changed a value", name=n)
    ctx.nontrivial(bool(free) and len(more) > 0)
    ctx.label("uncertainties" if c["errors"] else "values", "dates" if c["epoch"] else "small times")


SUBCHECKS = [Sub("printed", PRINT, check_print, quick=250, thorough=3000),
             Sub("history", CASE, check, quick=700, thorough=8000, weight=5),
             Sub("layout", LAY, check_layout, quick=600, thorough=6000)]
