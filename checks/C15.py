"""C15: saved, loaded and deep-copied posteriors are identical and independent."""
import copy
import os
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import radvel
from vlib import boot, conf, gen, pri, rvx
from vlib.core import Sub, close, fail, require
from checks.C14 import _value

PROPERTY = "C15"
RULE = ("a posterior with 1-3 instruments (plain, decorrelated, GP, celerite), priors of any kind, custom planet letters, parameters "
        "possibly removed and added again, copied through 1-3 saves and deep copies, then used; non-trivial: at least one operation "
        "is applied to one of the copies")
MULTI = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'Numerical', 'UserDefined', 'Baseline']


@st.composite
def case(draw, kernels):
    c = draw(conf.config(max_planets=2, max_inst=3, nmin=1, nmax=6, kernels=kernels, emax=0.7))
    vals = conf.initial_values(c)
    names = sorted(n for n in vals if not vals[n][3])
    pr = []
    for n in draw(st.lists(st.sampled_from(names), max_size=4)):
        d = draw(pri.spec(n, vals[n][0], MULTI))
        if d['kind'] == 'Baseline' and not n.startswith(('per', 'logper')):
            d = draw(pri.spec(n, vals[n][0], ['Gaussian', 'HardBounds']))
        pr.append(dict(d, constraint=draw(st.sampled_from([False, False, True]))))
    op = st.fixed_dictionaries(dict(op=st.sampled_from(['array', 'slow', 'vary', 'scale', 'value', 'predict', 'repr', 'prior', 'data',
                                                        'letters', 'uparams', 'save', 'resid']),
                                    who=st.integers(0, 3), x=st.integers(0, 2), i=st.integers(0, 20)))
    return dict(conf=c, priors=pr, cons=draw(st.lists(pri.constraint(c['basis'], len(c['orbits'])), max_size=2)),
                letters=draw(st.booleans()), readd=draw(st.lists(st.integers(0, 30), max_size=2)),
                uparams=draw(st.booleans()),
                moved=draw(st.booleans()),
                how=draw(st.lists(st.sampled_from(['file', 'copy', 'file_used']), min_size=1, max_size=3)),
                xs=draw(st.lists(st.lists(st.one_of(gen.fl(0.8, 1.25), gen.fl(-2, -0.2)), min_size=10, max_size=10),
                                 min_size=2, max_size=2)),
                ops=draw(st.lists(op, min_size=1, max_size=8)))


def make(c):
    post, vals = conf.build(c['conf'])
    n = len(c['conf']['orbits'])
    if c['letters']:
        post.params.planet_letters = {i: 'xyzuv'[i - 1] for i in range(1, n + 1)}
    names = list(post.params)
    for i in c['readd']:
        k = names[i % len(names)]
        p = post.params[k]
        del post.params[k]
        post.params[k] = p
    for d in c['priors']:
        p = pri.make(d)
        p.extra_constraint = p.extra_constraint or d['constraint']
        post.priors.append(p)
    for d in c['cons']:
        post.priors.append(pri.make_constraint(d))
    if c['uparams']:
        post.uparams = {k: 0.5 for k in list(post.params)[:3]}
    if c['moved']:
        # the vector is ahead of the dictionary, as after a fit
        free = post.name_vary_params()
        post.logprob_array(np.array([_value(k, vals[k][0], 0.9) for k in free]))
    return post, vals


def likes(post):
    like = post.likelihood
    return list(getattr(like, 'like_list', [like]))


def state(post):
    """Observable state of a posterior, as plain data."""
    s = dict(params=rvx.snapshot(post.params), vector=post.vector.vector.tolist(), rows=dict(post.vector.indices),
             names=list(post.vector.names), free=post.name_vary_params(), vary=list(map(float, post.get_vary_params())),
             priors=[repr(p) for p in post.priors], constraint=[bool(p.extra_constraint) for p in post.priors],
             types=[type(p).__name__ for p in post.priors], uparams=dict(post.uparams) if post.uparams is not None else None,
             time_base=post.model.time_base, kind=type(post.likelihood).__name__,
             data=[np.asarray(getattr(post.likelihood, k)).tolist() for k in ('x', 'y', 'yerr')])
    s['telvec'] = list(map(str, getattr(post.likelihood, 'telvec', [])))
    s['insts'] = [dict(kind=type(x).__name__, suffix=getattr(x, 'suffix', None), x=np.asarray(x.x).tolist(), y=np.asarray(x.y).tolist(),
                       e=np.asarray(x.yerr).tolist(), hn=sorted(getattr(x, 'hnames', [])), dv=list(getattr(x, 'decorr_vars', [])),
                       kern=type(getattr(x, 'kernel', None)).__name__) for x in likes(post)]
    return s


def same_state(a, b, msg, **kw):
    for k in a:
        if a[k] != b[k]:
            if k == 'vector' and np.array_equal(np.array(a[k]), np.array(b[k]), equal_nan=True):
                continue
            fail(msg, what=k, first=a[k], second=b[k], **kw)


def functions(post, arrays):
    """Values of everything that is computed, at each array; leaves the posterior at the array it had."""
    here = post.vector.vector.copy()
    named = {k: p.value for k, p in post.params.items()}
    out = []
    with np.errstate(all='ignore'):
        for x in arrays:
            out.append(float(post.logprob_array(x)))
            out.append(float(post.likelihood.logprob()))
            out.append(float(post.likelihood_ns_array(x)))
            out += [float(v) for v in post.residuals()]
            out += [float(v) for v in post.likelihood.errorbars()]
            out += [float(v) for v in post.model(np.array([1.0, 33.3]))]
            for like in likes(post):
                if hasattr(like, 'predict'):
                    mu, sd = like.predict(np.array([1.5, 30.25]))
                    out += [float(v) for v in mu] + [float(v) for v in sd]
        post.vector.vector[:] = here
        post.logprob()
    for k, v in named.items():
        post.params[k].value = v
    return out


def through(post, how, tmp):
    if how == 'copy':
        return copy.deepcopy(post)
    f = os.path.join(tmp, 'post.pkl')
    if how == 'file_used':
        post.logprob()
    post.writeto(f)
    return radvel.posterior.load(f)


def arrays_for(post, vals, c):
    free = post.name_vary_params()
    return [np.array([vals[n][0] for n in free])] + [np.array([_value(n, vals[n][0], f[i % 10]) for i, n in enumerate(free)])
                                                     for f in c['xs']]


def check(c, ctx):
    post, vals = make(c)
    arrays = arrays_for(post, vals, c)
    with tempfile.TemporaryDirectory() as tmp:
        ref = functions(post, arrays)
        text = repr(post)
        objs = [post]
        s0 = state(post)
        for how in c['how']:
            new = through(objs[-1], how, tmp)
            same_state(s0, state(objs[-1]), "saving or copying changed the original", how=how)
            same_state(s0, state(new), "the copy differs from the original", how=how)
            require(repr(new) == text, "the copy prints differently", how=how)
            got = functions(new, arrays)
            close(got, ref, rtol=1e-12, atol=1e-300, msg="the copy computes something else", how=how)
            require(new.vector is new.likelihood.vector and new.params is new.likelihood.params
                    and all(x.vector is new.vector and x.params is new.params for x in likes(new))
                    and new.model.vector is new.vector, "the parts of the copy do not share their parameters")
            objs.append(new)
        # use them; each behaves as its own history says, whatever happens to the others
        for o in c['ops']:
            w = o['who'] % len(objs)
            before = [state(p) for p in objs]
            p = objs[w]
            changed = apply(p, o, vals, c['xs'], tmp)
            ctx.label(o['op'])
            for j, q in enumerate(objs):
                if j != w or not changed:
                    same_state(before[j], state(q), "changing one copy changed another", op=o['op'], changed=w, seen_in=j)
        # a copy of a copy that was used still equals it
        q = objs[c['ops'][-1]['who'] % len(objs)]
        if len(q.name_vary_params()):
            xs = [np.array(q.get_vary_params())]
            twin = through(q, 'file', tmp)
            same_state(state(q), state(twin), "a used posterior does not load back identical")
            close(functions(twin, xs), functions(q, xs), rtol=1e-12, atol=1e-300, msg="a used posterior computes something else after loading")
    ctx.nontrivial(True)


def apply(p, o, vals, xs, tmp):
    """One operation on posterior p. True if it may change its state."""
    op, i = o['op'], o['i']
    names = list(p.params)
    free = p.name_vary_params()
    if op in ('array', 'slow'):
        f = xs[o['x'] % len(xs)]
        x = np.array([_value(n, vals[n][0], f[i % 10]) for i, n in enumerate(free)])
        if op == 'array':
            p.logprob_array(x)
        else:
            p.set_vary_params(x)
        return True
    if op == 'vary':
        n = names[i % len(names)]
        if p.params[n].linear:
            return False
        if len(free) == 1 and n in free:
            return False
        p.params[n].vary = not p.params[n].vary
        p.vector.vector_to_dict()
        p.vector.dict_to_vector()
        p.list_vary_params()
        p.likelihood.list_vary_params()
        return True
    if op == 'scale':
        p.vector.vector_to_dict()
        p.params[names[i % len(names)]].mcmcscale = 0.25
        p.vector.dict_to_vector()
        return True
    if op == 'value':
        p.vector.vector_to_dict()
        n = names[i % len(names)]
        p.params[n].value = _value(n, p.params[n].value, 0.99)
        p.vector.dict_to_vector()
        return True
    if op == 'predict':
        for like in likes(p):
            if hasattr(like, 'predict'):
                like.predict(np.array([3.0, 4.0, 50.0]))
        return True
    if op == 'repr':
        repr(p)          # brings the named parameters up to date
        return True
    if op == 'resid':
        p.residuals()
        p.aic()
        return True
    if op == 'prior':
        if p.priors and i % 2:
            p.priors.pop()
        else:
            p.priors.append(radvel.prior.Gaussian(names[0], 0.0, 1.0))
        return True
    if op == 'data':
        like = likes(p)[i % len(likes(p))]
        like.y[0] += 1.0
        return True
    if op == 'letters':
        p.params.planet_letters = {k: 'g' for k in range(1, 4)}
        return True
    if op == 'uparams':
        p.uparams = {'x': 1.0}
        return True
    if op == 'save':
        f = os.path.join(tmp, 'again.pkl')
        p.writeto(f)
        radvel.posterior.load(f)
        return False
    raise KeyError(op)


# ------------------------------------------------------------------ loading in another process

WORKER = """
import json, sys
sys.path[:0] = json.load(open(sys.argv[3]))
import numpy as np, radvel
from checks import C15
print("READY")
out = []
for f, arrays in json.load(open(sys.argv[1])):
    p = radvel.posterior.load(f)
    s = C15.state(p)
    out.append(dict(state=s, fn=C15.functions(p, [np.array(a) for a in arrays]), text=repr(p)))
json.dump(out, open(sys.argv[2], 'w'))
"""


def check_process(c, ctx):
    import json
    with tempfile.TemporaryDirectory() as tmp:
        jobs, want = [], []
        for i, one in enumerate(c):
            post, vals = make(one)
            arrays = arrays_for(post, vals, one)
            f = os.path.join(tmp, '%d.pkl' % i)
            fn = functions(post, arrays)
            text = repr(post)
            post.writeto(f)
            jobs.append((f, [a.tolist() for a in arrays]))
            want.append(dict(state=state(post), fn=fn, text=text))
        inp, out = os.path.join(tmp, 'in.json'), os.path.join(tmp, 'out.json')
        with open(inp, 'w') as fh:
            json.dump(jobs, fh)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        spath = os.path.join(tmp, 'path.json')
        with open(spath, 'w') as fh:
            json.dump([here] + [q for q in sys.path if q], fh)
        r = subprocess.run([sys.executable, '-c', WORKER, inp, out, spath], capture_output=True, text=True, cwd=here, timeout=300)
        if 'READY' not in r.stdout:
            raise boot.HarnessError("the loading process did not start: " + r.stderr[-600:])
        require(r.returncode == 0, "a saved posterior cannot be used in another process", err=r.stderr[-600:])
        with open(out) as fh:
            got = json.load(fh)
        for g, w in zip(got, want):
            w = json.loads(json.dumps(w, default=str))
            same_state(w['state'], json.loads(json.dumps(g['state'], default=str)), "loaded in another process: different")
            require(g['text'] == w['text'], "loaded in another process: prints differently")
            close(g['fn'], w['fn'], rtol=1e-9, atol=1e-12, msg="loaded in another process: computes something else")
    ctx.nontrivial(len(c) > 0)


SUBCHECKS = [Sub("history", case(('QuasiPer', 'SqExp', 'Per')), check, quick=450, thorough=5000, weight=3),
             Sub("history2", case(('QuasiPer', 'Per')), check, quick=450, thorough=5000, weight=3),
             Sub("celerite", case(('Celerite',)), check, quick=300, thorough=3000, weight=2),
             Sub("process", st.lists(case(('QuasiPer', 'Celerite')), min_size=6, max_size=10), check_process, quick=4, thorough=30)]
