"""C09: GP kernels."""
import numpy as np
from hypothesis import strategies as st

import radvel
from radvel import gp
from vlib import conf, gen, pure
from vlib.core import Sub, close, fail, require

PROPERTY = "C09"
RULE = ("two sets of 1-12 times, any kernel and positive hyperparameters, suffix, order of hyperparameters and errors; "
        "non-trivial: at least two distinct times on one side")

DENSE = ('SqExp', 'Per', 'QuasiPer')
CLS = dict(SqExp=gp.SqExpKernel, Per=gp.PerKernel, QuasiPer=gp.QuasiPerKernel, Celerite=gp.CeleriteKernel)
SUF = ["", "_j", "_hires", "_harps_n", "_amp", "_per", "_2", '_length']


def hps(name):
    # lengths may be short or long compared with the times, so that kernels reach both 0 and 1
    lim = dict(gp_amp=gen.logu(0.01, 1000), gp_B=gen.logu(0.01, 1000), gp_C=gen.logu(1e-3, 100))
    return st.fixed_dictionaries({h: lim.get(h, gen.logu(0.05, 300)) for h in conf.KERNELS[name]})


@st.composite
def case(draw, kernels=DENSE):
    k = draw(st.sampled_from(kernels))
    times = st.lists(gen.fl(-200, 200), min_size=1, max_size=12)
    t1 = draw(times)
    return dict(kernel=k, hp=draw(hps(k)), hp2=draw(hps(k)), zero=draw(st.sampled_from([None, None, None, 0, 1, 2, 3])),
                t1=t1, t2=draw(st.one_of(times, st.just(t1), st.lists(gen.fl(-200, 200), min_size=len(t1), max_size=len(t1)))),
                err=draw(st.lists(gen.logu(0.01, 100), min_size=12, max_size=12)), scalar=draw(st.booleans()),
                suf=draw(st.sampled_from(SUF)), perm=draw(st.permutations(list(range(len(conf.KERNELS[k]))))),
                shift=draw(st.integers(-4096, 4096)))


def _kernel(c, hp):
    names = conf.KERNELS[c['kernel']]
    return CLS[c['kernel']]({names[i] + c['suf']: radvel.Parameter(value=hp[names[i]]) for i in c['perm']})


def _want(c, hp, t1, t2):
    if c['kernel'] == 'QuasiPer' and any(v == 0 for v in hp.values()):
        return np.zeros((len(t1), len(t2)))
    return conf.kernel_matrix(c['kernel'], hp, t1, t2)


def _tol(c, hp, t1, t2):
    """Rounding of sin^2(pi d/per)/(2 l^2) and of d^2/l^2: relative error of the kernel, plus tails cut at exp(-100)."""
    d = np.abs(np.subtract.outer(t1, t2))
    scale = 1.0
    per, ln = hp.get('gp_per'), hp.get('gp_perlength', hp.get('gp_length') if c['kernel'] == 'Per' else None)
    if per and ln:
        scale = scale + (np.pi * d / per + 1) / ln ** 2
    # the exponent's relative rounding error matters only where the kernel is not negligible
    return np.minimum(4e-15 * (scale + 100), 1.0) * hp.get('gp_amp', 1) ** 2 + 1e-40


def _cmp(k, c, hp, t1, t2, errors, want_diag, msg):
    k.compute_distances(np.array(t1), np.array(t2))
    got = k.compute_covmatrix(errors)
    want = _want(c, hp, t1, t2)
    tol = _tol(c, hp, np.array(t1), np.array(t2))
    if want_diag is not None:
        want = want + np.diag(want_diag)
        tol = tol + 1e-12 * np.max(want_diag)
    require(np.shape(got) == want.shape, msg + ": shape", got=np.shape(got), want=want.shape)
    close(got, want, rtol=1e-10, atol=tol, msg=msg)
    close(k.covmatrix, want, rtol=1e-10, atol=tol, msg=msg + " (stored matrix)")
    return np.array(got)


def check_dense(c, ctx):
    hp = dict(c['hp'])
    names = conf.KERNELS[c['kernel']]
    if c['zero'] is not None and c['kernel'] == 'QuasiPer':
        hp[names[c['zero'] % 4]] = 0.0
    k = _kernel(c, hp)
    require(k.name == c['kernel'], "kernel name")
    t1, t2 = c['t1'], c['t2']
    n = len(t1)
    e1 = c['err'][0] if c['scalar'] else np.array(c['err'][:n])
    diag = np.full(n, c['err'][0] ** 2) if c['scalar'] else np.array(c['err'][:n]) ** 2
    a = _cmp(k, c, hp, t1, t2, 0., None, "cross covariance")
    _cmp(k, c, hp, t1, t1, e1, diag, "covariance with errors")
    s = _cmp(k, c, hp, t1, t1, 0., None, "covariance without errors")
    close(s, s.T, rtol=1e-12, atol=1e-300, msg="covariance is not symmetric")
    ev = np.linalg.eigvalsh(s)
    require(ev.min() >= -1e-9 * (np.trace(s) + 1e-300), "covariance is not positive semi-definite", eig=ev.min(), trace=np.trace(s))
    b = _cmp(k, c, hp, t2, t1, 0., None, "cross covariance, transposed")
    close(a, b.T, rtol=1e-12, atol=1e-300, msg="C(t1,t2) is not C(t2,t1)^T")
    if t1:
        # times shifted together (the shift is exact in double precision for shifted values rounded once)
        x = np.round(np.array(t1) * 4) / 4
        y = np.round(np.array(t2) * 4) / 4
        a0 = _cmp(k, c, hp, x, y, 0., None, "cross covariance of rounded times")
        a1 = _cmp(k, c, hp, x + c['shift'], y + c['shift'], 0., None, "cross covariance of shifted times")
        close(a0, a1, rtol=1e-12, atol=1e-300, msg="covariance depends on the origin of time")
    # the matrix follows the parameters
    for h in names:
        k.hparams[h].value = c['hp2'][h]
    _cmp(k, c, c['hp2'], t1, t2, 0., None, "after a change of the hyperparameters")
    _cmp(k, c, c['hp2'], t1, t1, e1, diag, "with errors after a change of the hyperparameters")
    repr(k)
    ctx.nontrivial(len(set(t1)) > 1 or len(set(t2)) > 1)
    ctx.label(c['kernel'], "square" if len(t1) == len(t2) else "rectangular", "zero" if 0 in hp.values() else "on")


def check_celerite(c, ctx):
    k = _kernel(c, c['hp'])
    t = np.array(sorted(set(c['t1'])))
    e = np.array(c['err'][:len(t)])
    b = np.array([((7 * i) % 5) - 2.0 + 0.1 * i for i in range(len(t))])
    k.compute_distances(t, t)
    for hp in (c['hp'], c['hp2'], c['hp']):
        for h in conf.KERNELS['Celerite']:
            k.hparams[h].value = hp[h]
        s = k.compute_covmatrix(e)
        K = conf.kernel_matrix('Celerite', hp, t, t) + np.diag(e ** 2)
        cond = np.linalg.cond(K)
        if cond > 1e10:
            ctx.label("ill-conditioned")
            continue
        close(s.log_determinant(), np.linalg.slogdet(K)[1], rtol=1e-9, atol=1e-12 * cond + 1e-8, msg="log-determinant")
        q = b @ np.linalg.solve(K, b)
        close(s.dot_solve(b), q, rtol=1e-9 + 1e-13 * cond, atol=1e-10, msg="quadratic form")
        ctx.nontrivial(len(t) > 1)
    repr(k)


@st.composite
def wrong(draw):
    k = draw(st.sampled_from(DENSE + ('Celerite',)))
    n = len(conf.KERNELS[k])
    return dict(kernel=k, kind=draw(st.sampled_from(['missing', 'other', 'extra', 'plain', 'none', 'good'])),
                i=draw(st.integers(0, n - 1)), suf=draw(st.sampled_from(SUF)), perm=draw(st.permutations(list(range(n)))),
                other=draw(st.sampled_from(['gp_foo', 'amp', 'xgp_amp', 'length', 'per1'])))


def check_wrong(c, ctx):
    names = [conf.KERNELS[c['kernel']][i] for i in c['perm']]
    hp = {h + c['suf']: radvel.Parameter(value=1.0 + i) for i, h in enumerate(names)}
    bad = names[c['i']] + c['suf']
    if c['kind'] == 'missing':
        del hp[bad]
    elif c['kind'] == 'other':
        del hp[bad]
        hp[c['other'] + c['suf']] = radvel.Parameter(value=1.0)
    elif c['kind'] == 'extra':
        hp[c['other'] + c['suf']] = radvel.Parameter(value=1.0)
    elif c['kind'] == 'plain':
        hp[bad] = 2.0
    elif c['kind'] == 'none':
        hp = {}
    keys = list(hp)
    try:
        k = CLS[c['kernel']](hp)
    except (AssertionError, KeyError, AttributeError, ValueError, TypeError):
        require(c['kind'] != 'good', "a correct set of hyperparameters was rejected", names=keys)
    else:
        require(c['kind'] == 'good', "a wrong set of hyperparameters was accepted", kernel=c['kernel'], names=keys)
        for i, h in enumerate(names):
            require(k.hparams[h].value == 1.0 + i, "hyperparameter matched to the wrong name", name=h)
        require(set(k.hparams) == set(names), "hyperparameter names")
    require(list(hp) == keys, "the dictionary was changed")
    ctx.nontrivial(c['kind'] != 'good')
    ctx.label(c['kind'])


def check_pure(c, ctx):
    k = _kernel(c, c['hp'])
    t1, t2 = np.array(c['t1']), np.array(c['t2'])
    u1, u2 = t1[::-1] * 0.5 + 1, t2[::-1] * 0.7 - 3
    e = np.array(c['err'][:len(t1)])

    def cross(x, y):
        k.compute_distances(x, y)
        return np.array(k.compute_covmatrix(0.0))

    def square(x, s):
        k.compute_distances(x, x)
        return np.array(k.compute_covmatrix(s))

    tol = float(_tol(c, c["hp"], -300.0, 300.0)) + 1e-12
    pure.law("cross covariance", cross, [t1, t2], [u1, u2], rtol=1e-10, atol=tol)
    pure.law("covariance", square, [t1, e], [u1, e[::-1] * 2], rtol=1e-10, atol=tol)
    # the distances stay while the errors and the hyperparameters are changed; a matrix given out is not the next one
    k.compute_distances(t1, t1)
    a = k.compute_covmatrix(e)
    keep = np.array(a)
    b = np.array(k.compute_covmatrix(2 * e))
    k.compute_distances(t2, t2)
    k.compute_covmatrix(0.0)
    close(b - keep, np.diag(3 * e ** 2), rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(keep))), msg="errors of another call stay in the matrix")
    ctx.nontrivial(len(set(c['t1'])) > 1)


SUBCHECKS = [Sub("pure", case(), check_pure, quick=120, thorough=1500),
             Sub("dense", case(), check_dense, quick=1200, thorough=15000, weight=3),
             Sub("celerite", case(('Celerite',)), check_celerite, quick=500, thorough=6000, weight=2),
             Sub("sets", wrong(), check_wrong, quick=300, thorough=2000)]
