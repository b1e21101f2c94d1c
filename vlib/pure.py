"""Calls are functions of the values of their arguments: not of where these are stored, of earlier calls, or of what becomes of results."""
import numpy as np

from vlib.core import close, require


def _flat(r):
    if isinstance(r, (tuple, list)) and any(isinstance(x, (np.ndarray, tuple, list)) for x in r):
        return [z for x in r for z in _flat(x)]
    return [r]


def _snap(r):
    return [np.array(x, copy=True) for x in _flat(r)]


def _same(got, want, msg, rtol, atol, name):
    got = _flat(got)
    require(len(got) == len(want), msg + ": number of results", which=name)
    for g, w in zip(got, want):
        g = np.asarray(g)
        require(g.shape == w.shape, msg + ": shape", which=name, shape=g.shape, expected=w.shape)
        if w.dtype.kind in 'fiu':
            close(np.nan_to_num(np.asarray(g, float), nan=-1.25e300), np.nan_to_num(np.asarray(w, float), nan=-1.25e300), rtol=rtol, atol=atol, msg=msg,
                  which=name)
        else:
            require(np.array_equal(g, w), msg, which=name)


def _scribble(r):
    for x in _flat(r):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == 'f':
            x[...] = -12345.678


def stored(a, how):
    """The same values, stored otherwise."""
    if not isinstance(a, np.ndarray) or a.ndim != 1:
        return a
    if how == 'strided':
        b = np.full(2 * len(a) + 1, a.flat[0] if len(a) else 0).astype(a.dtype)
        b[1::2] = a
        return b[1::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'column':
        b = np.zeros((len(a), 3), dtype=a.dtype)
        b[:, 1] = a
        return b[:, 1]
    return a.copy()


HOW = ['strided', 'reversed', 'readonly', 'column']


def law(name, fn, args, other, rtol=1e-12, atol=0.0):
    """fn(*args) where args are scalars and arrays; `other`: arguments of the same shapes with other values.

    The results may be any nest of scalars and arrays."""
    cp = lambda v: [x.copy() if isinstance(x, np.ndarray) else x for x in v]
    A, B = cp(args), cp(other)
    ra = fn(*A)
    want = _snap(ra)
    rb = _snap(fn(*B))
    _same(ra, want, "a result changed while the next one was computed", 0, 0, name)
    _scribble(ra)
    require(all(np.array_equal(x, y) for x, y in zip(A, args)), "a result shares its memory with the arguments", which=name)
    _same(fn(*A), want, "the second call gives another result than the first", rtol, atol, name)
    # other values in the same arrays
    work = cp(args)
    _same(fn(*work), want, "the third call gives another result than the first", rtol, atol, name)
    for i, x in enumerate(work):
        if isinstance(x, np.ndarray):
            x[...] = other[i]
        else:
            work[i] = other[i]
    _same(fn(*work), rb, "the result belongs to the values the arrays had before", rtol, atol, name)
    for how in HOW:
        V = [stored(x, how) for x in args]
        _same(fn(*V), want, "the result depends on how the array is stored", rtol, atol, name + ' ' + how)
        require(all(np.array_equal(x, y) for x, y in zip(V, args)), "the arguments were changed", which=name + ' ' + how)
    return want
