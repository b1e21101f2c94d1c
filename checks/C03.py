"""C03: basis conversions describe the same orbits."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import radvel
from radvel.basis import Basis
from vlib import gen, ref, rvx
from vlib.core import Sub, close, close_mod, fail, require

PROPERTY = "C03"
RULE = ("one to four planets, any pair or chain of the nine fitting bases (and the print basis as target), with other "
        "parameters present; non-trivial: source and target differ and some planet is eccentric")

ORB = st.fixed_dictionaries(dict(
    per=gen.periods(), tp=st.one_of(gen.fl(-40.0, 60.0), gen.fl(2450000.0, 2450100.0)),
    e=st.one_of(gen.fl(0.0, 0.9), gen.fl(0.01, 0.6), st.just(0.0)), w=gen.omegas(), k=gen.amps()))
EXTRA = st.lists(st.tuples(st.sampled_from(["gamma_j", "jit_j", "gamma_hires", "jit_hires", "dvdt", "curv", "gp_amp",
                                            "gp_per", "my_param", "c1_airmass_j"]),
                           gen.fl(-10, 10), st.booleans(), st.one_of(st.none(), gen.fl(0.1, 2))),
                 max_size=5, unique_by=lambda x: x[0])
CASE = st.fixed_dictionaries(dict(
    orbits=st.lists(ORB, min_size=1, max_size=4), src=st.sampled_from(rvx.BASES), dst=st.sampled_from(rvx.BASES),
    dst2=st.sampled_from(rvx.BASES), extra=EXTRA, letters=st.booleans(),
    flags=st.lists(st.tuples(st.booleans(), st.one_of(st.none(), gen.fl(0.1, 2))), min_size=7, max_size=7),
    chain=st.lists(st.sampled_from(rvx.BASES), max_size=4)))


def _letters(c):
    return {i + 1: "cdbefghijklmnop"[i] for i in range(len(c["orbits"]))} if c["letters"] else None


def _same_orbit(got, o, msg, **kw):
    """The decoded orbit is o: elements, and the velocity over one period around the epoch."""
    e = o["e"]
    close(got["per"], o["per"], rtol=1e-12, atol=0, msg=msg + ": period", **kw)
    close(got["k"], o["k"], rtol=1e-12, atol=0, msg=msg + ": amplitude", **kw)
    close(got["e"], e, rtol=1e-12, atol=1e-14, msg=msg + ": eccentricity", **kw)
    t = o["tp"] + o["per"] * np.array([0.03, 0.2, 0.41, 0.66, 0.87])
    tol = ref.rv_tol(t, o["per"], o["tp"], e, o["k"]) + o["k"] * (1e-9 / (1 - e) ** 2.5)
    tol = tol + o["k"] * 1e-14 * abs(o["tp"]) / o["per"] / (1 - e) ** 2.5
    g = dict(got)
    close(ref.rv(t, g["per"], g["tp"], g["e"], g["w"], g["k"]), ref.rv(t, o["per"], o["tp"], e, o["w"], o["k"]),
          rtol=0, atol=tol, msg=msg + ": velocity", got_orbit=got, orbit=o, **kw)
    if e > 1e-3:
        close_mod(got["w"], o["w"], 2 * np.pi, 1e-9, msg=msg + ": omega", **kw)


def _others(c):
    return {n: (v, vy, sc) for n, v, vy, sc in c["extra"]}


def _check_params(conv, basis, c, msg):
    n = len(c["orbits"])
    want_keys = {"%s%d" % (p, i + 1) for p in basis.split() for i in range(n)} | set(x[0] for x in c["extra"])
    require(set(conv.keys()) == want_keys, msg + ": parameter names", got=sorted(conv), want=sorted(want_keys))
    require(conv.basis.name == basis and conv.num_planets == n and conv.basis.num_planets == n
            and list(conv.planet_parameters) == basis.split() and conv.planet_letters == _letters(c),
            msg + ": basis, planet count or letters", basis=conv.basis.name)
    for name, (v, vy, sc) in _others(c).items():
        p = conv[name]
        require(p.value == v and p.vary == vy and p.mcmcscale == sc, msg + ": an unrelated parameter changed", name=name)
    for i, o in enumerate(c["orbits"]):
        _same_orbit(rvx.decode(basis, rvx.planet_values(conv, basis, i + 1)), o, msg, planet=i + 1)


def _flagged(c):
    """The parameters of the case, with flags and scales that differ between parameters and between planets."""
    params = rvx.make_params(c["src"], c["orbits"], _others(c), letters=_letters(c))
    j = 0
    for i in range(len(c["orbits"])):
        for p in c["src"].split():
            params["%s%d" % (p, i + 1)].vary, params["%s%d" % (p, i + 1)].mcmcscale = c["flags"][j % 7]
            j += 1
    return params


def _check_flags(conv, old, c, msg, new=True):
    """What both parameterisations share keeps its flag and scale; what is new is free (not a fitting parameter: new='')."""
    for i in range(len(c["orbits"])):
        for p in conv.basis.name.split():
            n = "%s%d" % (p, i + 1)
            want = (old[n].vary, old[n].mcmcscale) if n in old else (new, None)
            require((conv[n].vary, conv[n].mcmcscale) == want and type(conv[n].vary) is type(want[0]), msg + ": flag or scale of a planet's parameter",
                    name=n, now=(conv[n].vary, conv[n].mcmcscale), want=want)


def check_params(c, ctx):
    params = _flagged(c)
    before = rvx.snapshot(params)
    conv = params.basis.to_any_basis(params, c["dst"])
    require(rvx.snapshot(params) == before, "the conversion changed the parameters it was given",
            before=before, after=rvx.snapshot(params))
    _check_params(conv, c["dst"], c, "to_any_basis")
    _check_flags(conv, params, c, "to_any_basis")
    # again, to another basis, from the same object
    conv2 = params.basis.to_any_basis(params, c["dst2"])
    _check_params(conv2, c["dst2"], c, "second conversion of the same parameters")
    # round trip
    back = conv.basis.to_any_basis(conv, c["src"])
    _check_params(back, c["src"], c, "round trip")
    _check_flags(back, conv, c, "round trip")
    synth = params.basis.to_synth(params)
    _check_flags(synth, params, c, "to_synth", new='')
    for i, o in enumerate(c["orbits"]):
        g = {k: float(synth["%s%d" % (k, i + 1)].value) for k in "per tp e w k".split()}
        _same_orbit(g, o, "to_synth", planet=i + 1)
    require(rvx.snapshot(params) == before, "to_synth changed the parameters it was given")
    # a model on the converted parameters
    mod = radvel.RVModel(conv)
    t = np.array([o["tp"] for o in c["orbits"][:1]] * 4) + c["orbits"][0]["per"] * np.array([0.1, 0.37, 0.52, 1.9])
    emax = max(o["e"] for o in c["orbits"])
    pmin = min(o["per"] for o in c["orbits"])
    kk = sum(o["k"] for o in c["orbits"])
    span = max(abs(o["tp"]) + 2 * o["per"] for o in c["orbits"])
    tol = rvx.total_tol(t, c["orbits"]) + kk * (1e-9 + 1e-14 * span / pmin) / (1 - emax) ** 2.5
    x = _others(c)
    want = rvx.total_rv(t, c["orbits"], x.get("dvdt", (0,))[0], x.get("curv", (0,))[0], 0.0)
    trend = max(abs(want - rvx.total_rv(t, c["orbits"])))
    # periods far apart: the slope of the shortest one limits the phase accuracy over the longest one
    slack = sum(o["k"] * 2 * np.pi * 1e-12 * (abs(t - o["tp"]).max() / o["per"]) / (1 - o["e"]) ** 2.5 for o in c["orbits"])
    close(mod(t), want, rtol=0, atol=tol + slack + 1e-12 * trend, msg="model on the converted parameters")
    ctx.nontrivial(c["src"] != c["dst"] and emax > 0)
    ctx.label("planets=%d" % len(c["orbits"]), "same" if c["src"] == c["dst"] else "other")


# ten planets and more: two-digit planet numbers
MANY = st.tuples(CASE, st.integers(10, 12)).map(lambda x: dict(x[0], chain=x[0]["chain"][:2], orbits=[
    dict(o, per=o["per"] * (1 + 0.07 * i), k=o["k"] * (1 + 0.05 * i), tp=o["tp"] + 0.3 * i)
    for i in range(x[1]) for o in [x[0]["orbits"][i % len(x[0]["orbits"])]]]))


def check_many(c, ctx):
    check_params(c, ctx)
    check_vector(c, ctx)
    params = rvx.make_params(c["src"], c["orbits"])
    df = pd.DataFrame({k: [p.value] for k, p in params.items()})
    syn = params.basis.to_synth(df)
    out = Basis("per tp e w k", len(c["orbits"])).from_synth(syn, c["dst"], keep=True)
    for i, o in enumerate(c["orbits"]):
        _same_orbit(rvx.decode(c["dst"], {p: float(out["%s%d" % (p, i + 1)].iloc[0]) for p in c["dst"].split()}), o,
                    "chains of many planets", planet=i + 1)


def check_chain(c, ctx):
    cur = _flagged(c)
    for b in c["chain"]:
        cur, old = cur.basis.to_any_basis(cur, b), cur
        _check_flags(cur, old, c, "chain of conversions")
        _check_params(cur, b, c, "chain of conversions")
    ctx.nontrivial(len(set([c["src"]] + c["chain"])) > 2 and any(o["e"] > 0 for o in c["orbits"]))


def check_vector(c, ctx):
    params = rvx.make_params(c["src"], c["orbits"], _others(c))
    vec = radvel.Vector(params)
    v0 = vec.vector.copy()
    n = len(c["orbits"])
    for arg in (vec, vec.vector):
        s = params.basis.v_to_synth(arg)
        out = params.basis.v_to_any_basis(arg, c["dst"])
        require(np.array_equal(vec.vector, v0), "vector conversion changed its input")
        require(out.shape == v0.shape and s.shape == v0.shape, "shape of the converted vector")
        close(out[5 * n:], v0[5 * n:], rtol=0, atol=0, msg="rows of other parameters changed")
        close(s[5 * n:], v0[5 * n:], rtol=0, atol=0, msg="rows of other parameters changed (synth)")
        for i, o in enumerate(c["orbits"]):
            g = dict(zip("per tp e w k".split(), s[5 * i:5 * i + 5, 0]))
            _same_orbit(g, o, "v_to_synth", planet=i + 1)
            g = dict(zip(c["dst"].split(), out[5 * i:5 * i + 5, 0]))
            _same_orbit(rvx.decode(c["dst"], g), o, "v_to_any_basis", planet=i + 1)
    # same numbers as the conversion of the named parameters
    conv = params.basis.to_any_basis(params, c["dst"])
    for i, o in enumerate(c["orbits"]):
        for j, p in enumerate(c["dst"].split()):
            a, b = out[5 * i + j, 0], conv["%s%d" % (p, i + 1)].value
            close(a, b, rtol=1e-12, atol=1e-12, msg="vector and named conversions disagree", par=p)
    ctx.nontrivial(c["src"] != c["dst"] and any(o["e"] > 0 for o in c["orbits"]))


DF = st.fixed_dictionaries(dict(nplanets=st.integers(1, 3), src=st.sampled_from(rvx.BASES),
                                dst=st.sampled_from(rvx.BASES + ["per tc tp e w k"]), keep=st.booleans(),
                                rows=st.lists(st.lists(ORB, min_size=3, max_size=3), min_size=1, max_size=6)))


def check_frame(c, ctx):
    n, src, dst = c["nplanets"], c["src"], c["dst"]
    cols = {"gamma_j": [0.5 * i for i in range(len(c["rows"]))]}
    for i in range(n):
        enc = [rvx.encode(src, row[i]) for row in c["rows"]]
        for p in src.split():
            cols["%s%d" % (p, i + 1)] = [e[p] for e in enc]
    df = pd.DataFrame(cols)
    df0 = df.copy()
    basis = Basis(src, n)
    syn = basis.to_synth(df)
    require(df.equals(df0) and list(df.columns) == list(df0.columns), "to_synth changed the chains it was given")
    require(len(syn) == len(df) and list(syn["gamma_j"]) == cols["gamma_j"], "rows or other columns changed")
    for r, row in enumerate(c["rows"]):
        for i in range(n):
            g = {p: float(syn["%s%d" % (p, i + 1)].iloc[r]) for p in "per tp e w k".split()}
            _same_orbit(g, row[i], "to_synth of chains", row=r)
    only = syn[["%s%d" % (p, i + 1) for i in range(n) for p in "per tp e w k".split()] + ["gamma_j"]].copy()
    only0 = only.copy()
    out = Basis("per tp e w k", n).from_synth(only, dst, keep=c["keep"])
    require(only.equals(only0), "from_synth changed the chains it was given")
    want = set("%s%d" % (p, i + 1) for i in range(n) for p in dst.split()) | {"gamma_j"}
    if c["keep"]:
        require(want <= set(out.columns) and set(only.columns) <= set(out.columns), "columns", got=list(out.columns))
    else:
        require(want == set(out.columns), "columns with keep=False", got=list(out.columns), want=sorted(want))
    # what `derive` and the report do: straight from the fitting basis, keeping everything
    if dst in ("per tc e w k", "per tc tp e w k", "per tc se w k"):
        out2 = basis.from_synth(syn, dst, keep=True)
        close(out2["tc1"], out["tc1"], rtol=1e-12, atol=1e-12, msg="tc column")
    for r, row in enumerate(c["rows"]):
        for i in range(n):
            g = {p: float(out["%s%d" % (p, i + 1)].iloc[r]) for p in dst.split()}
            _same_orbit(rvx.decode(dst, g), row[i], "from_synth of chains", row=r)
    ctx.nontrivial(len(c["rows"]) > 1 and any(o["e"] > 0 for row in c["rows"] for o in row[:n]))
    ctx.label("keep=%s" % c["keep"])


def check_names(c, ctx):
    b = Basis(c["src"], 2)
    e, circ = b.get_eparams(), b.get_circparams()
    require(sorted(list(e) + list(circ)) == sorted(c["src"].split()), "eccentricity and circular parameters of a basis",
            e=e, circ=circ)
    require(set(e) <= {"e", "w", "se", "secosw", "sesinw", "ecosw", "esinw"}, "eccentricity parameters", e=e)
    ctx.nontrivial()


SUBCHECKS = [
    Sub("params", CASE, check_params, quick=700, thorough=8000, weight=5),
    Sub("chain", CASE, check_chain, quick=400, thorough=5000, weight=3),
    Sub("many", MANY, check_many, quick=80, thorough=800, weight=4),
    Sub("vector", CASE, check_vector, quick=600, thorough=6000, weight=3),
    Sub("frame", DF, check_frame, quick=250, thorough=2500, weight=4),
    Sub("names", st.fixed_dictionaries(dict(src=st.sampled_from(rvx.BASES))), check_names, quick=40, thorough=40),
]
