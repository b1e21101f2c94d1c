"""Building radvel objects from plain data, and reading orbits back with formulas of our own."""
import numpy as np

import radvel
from . import ref

BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k',
         'per tc e w k', 'logper tc secosw sesinw k', 'logper tc secosw sesinw logk', 'per tc se w k',
         'logper tp e w logk']


def encode(basis, o):
    """Values of one planet's parameters in `basis` for the synthesis-basis orbit o (dict per tp e w k)."""
    per, tp, e, w, k = (float(o[x]) for x in ("per", "tp", "e", "w", "k"))
    out = {}
    for p in basis.split():
        if p == 'per':
            v = per
        elif p == 'logper':
            v = np.log(per)
        elif p == 'tp':
            v = tp
        elif p == 'tc':
            v = float(ref.tc_from_tp(tp, per, e, w))
        elif p == 'e':
            v = e
        elif p == 'w':
            v = w
        elif p == 'se':
            v = np.sqrt(e)
        elif p == 'secosw':
            v = np.sqrt(e) * np.cos(w)
        elif p == 'sesinw':
            v = np.sqrt(e) * np.sin(w)
        elif p == 'ecosw':
            v = e * np.cos(w)
        elif p == 'esinw':
            v = e * np.sin(w)
        elif p == 'k':
            v = k
        elif p == 'logk':
            v = np.log(k)
        out[p] = float(v)
    return out


def decode(basis, v):
    """Synthesis-basis orbit from one planet's parameter values (dict) in `basis`."""
    per = v['per'] if 'per' in v else np.exp(v['logper'])
    k = v['k'] if 'k' in v else np.exp(v['logk'])
    names = basis.split()
    if 'e' in names:
        e, w = v['e'], v['w']
    elif 'se' in names:
        e, w = v['se'] ** 2, v['w']
    elif 'secosw' in names:
        e, w = v['secosw'] ** 2 + v['sesinw'] ** 2, np.arctan2(v['sesinw'], v['secosw'])
    else:
        e, w = np.hypot(v['ecosw'], v['esinw']), np.arctan2(v['esinw'], v['ecosw'])
    tp = v['tp'] if 'tp' in names else float(ref.tp_from_tc(v['tc'], per, e, w))
    return dict(per=float(per), tp=float(tp), e=float(e), w=float(w), k=float(k))


def make_params(basis, orbits, extra=None, vary=None, letters=None):
    """radvel.Parameters for the orbits (list of dicts), plus extra parameters {name: (value, vary, scale)}."""
    params = radvel.Parameters(len(orbits), basis=basis, planet_letters=letters)
    for i, o in enumerate(orbits):
        for p, v in encode(basis, o).items():
            name = "%s%d" % (p, i + 1)
            params[name] = radvel.Parameter(value=v, vary=True if vary is None else bool(vary.get(name, True)))
    for name, val in (extra or {}).items():
        val = list(val) if isinstance(val, (list, tuple)) else [val]
        kw = dict(value=val[0])
        if len(val) > 1:
            kw['vary'] = bool(val[1])
        if len(val) > 2:
            kw['mcmcscale'] = val[2]
        if len(val) > 3:
            kw['linear'] = bool(val[3])
        params[name] = radvel.Parameter(**kw)
    return params


def planet_values(params, basis, n):
    """Parameter values of planet n as a dict keyed by basis name."""
    return {p: float(params["%s%d" % (p, n)].value) for p in basis.split()}


def total_rv(t, orbits, dvdt=0.0, curv=0.0, time_base=0.0):
    t = np.asarray(t, float)
    out = np.zeros(len(t))
    for o in orbits:
        out = out + ref.rv(t, o['per'], o['tp'], min(max(o['e'], 0), 0.99), o['w'], o['k'])
    return out + dvdt * (t - time_base) + curv * (t - time_base) ** 2


def total_tol(t, orbits):
    return 1e-11 + sum(ref.rv_tol(t, o['per'], o['tp'], min(max(o['e'], 0), 0.99), o['k']) for o in orbits)


def snapshot(params):
    """Everything observable about a Parameters object, for before/after comparison."""
    return ([(k, p.value, p.vary, p.mcmcscale, p.linear) for k, p in params.items()],
            params.basis.name, list(params.basis.params), params.basis.num_planets,
            list(params.planet_parameters), params.num_planets, params.planet_letters)
