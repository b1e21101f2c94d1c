"""Setup files for the pipeline: generator and writer."""
import json

from hypothesis import strategies as st

from . import conf, gen, rvx

TEMPLATE = '''# generated setup file
import json
import os
import numpy as np
import pandas as pd
import radvel
C = json.loads(r"""%s""")
starname = C["star"]
nplanets = len(C["orbits"])
instnames = C["instnames"]
ntels = len(instnames)
fitting_basis = C["basis"]
bjd0 = C["bjd0"]
if C["letters"]:
    planet_letters = {i + 1: l for i, l in enumerate(C["letters"])}
    params = radvel.Parameters(nplanets, basis=fitting_basis, planet_letters=planet_letters)
else:
    params = radvel.Parameters(nplanets, basis=fitting_basis)
for n, v, vary, scale, linear in C["pars"]:
    params[n] = radvel.Parameter(value=v, vary=vary, mcmcscale=scale, linear=linear)
data = pd.DataFrame(dict(C["data"]))
if C["index"]:
    data.index = C["index"]
priors = []
for d in C["priors"]:
    k = d["kind"]
    if k == "EccentricityPrior":
        priors.append(radvel.prior.EccentricityPrior(nplanets))
    elif k == "PositiveKPrior":
        priors.append(radvel.prior.PositiveKPrior(nplanets))
    elif k == "Gaussian":
        priors.append(radvel.prior.Gaussian(d["param"], d["mu"], d["sigma"]))
    elif k == "HardBounds":
        priors.append(radvel.prior.HardBounds(d["param"], d["lo"], d["hi"]))
    elif k == "Jeffreys":
        priors.append(radvel.prior.Jeffreys(d["param"], d["lo"], d["hi"]))
    elif k == "ModifiedJeffreys":
        priors.append(radvel.prior.ModifiedJeffreys(d["param"], d["lo"], d["hi"], d["knee"]))
    elif k == "Numerical":
        priors.append(radvel.prior.NumericalPrior([d["param"]], np.array(d["values"])))
    elif k == "UserDefined":
        priors.append(radvel.prior.UserDefinedPrior([d["param"]], len, d["tex"]))
    elif k == "Baseline":
        priors.append(radvel.prior.InformativeBaselinePrior(d["param"], d["baseline"], duration=d["duration"]))
    elif k == "Eclipse":
        priors.append(radvel.prior.SecondaryEclipsePrior(d["planet"], d["ts"], d["err"]))
    else:
        raise KeyError(k)
time_base = C["time_base"]
if C["stellar"]:
    stellar = dict(C["stellar"])
if C["planet"]:
    planet = dict(C["planet"])
if C["decorr_vars"]:
    decorr_vars = list(C["decorr_vars"])
if C["hnames"]:
    hnames = {k: list(v) for k, v in C["hnames"].items()}
    if C["kernel_name"]:
        kernel_name = dict(C["kernel_name"])
'''


def text(C):
    return TEMPLATE % json.dumps(C)


def write(C, path):
    with open(path, 'w') as fh:
        fh.write(text(C))
    return path


@st.composite
def small(draw, free_max=3, nmax=10, max_planets=2, max_inst=2, stellar=True, letters=True):
    """A quick, well-behaved system for whole-pipeline histories.  Every free parameter has one proper prior."""
    npl = draw(st.integers(1, max_planets))
    insts = draw(st.lists(st.sampled_from(['j', 'hires', 'a_b']), min_size=1, max_size=max_inst, unique=True))
    basis = draw(st.sampled_from(['per tc secosw sesinw k', 'per tp e w k', 'per tc e w k', 'logper tc secosw sesinw k', 'per tc se w k']))
    orbits = [dict(per=draw(gen.fl(2, 30)), tp=draw(gen.fl(0, 30)), e=draw(gen.fl(0.05, 0.5)), w=draw(gen.fl(-2.5, 2.5)), k=draw(gen.fl(3, 20)))
              for _ in range(npl)]
    pars = []
    cand = ['k%d' % (i + 1) for i in range(npl)] + ['gamma_' + i for i in insts] + ['dvdt', 'per1' if basis.startswith('per') else 'logper1']
    free = sorted(draw(st.lists(st.sampled_from(cand), min_size=1, max_size=free_max, unique=True)))
    vals = {}
    for i, o in enumerate(orbits):
        for p, v in rvx.encode(basis, o).items():
            vals['%s%d' % (p, i + 1)] = v
    vals['dvdt'], vals['curv'] = draw(gen.fl(-0.1, 0.1)), 0.0
    for i in insts:
        vals['gamma_' + i] = draw(gen.fl(-5, 5))
        vals['jit_' + i] = draw(gen.fl(0.5, 2))
    lin = {n for n in vals if n.startswith('gamma_') and n not in free and draw(st.booleans())}
    for n, v in vals.items():
        pars.append([n, v, n in free, 0, n in lin])
    priors = []
    if draw(st.booleans()):
        priors.append(dict(kind='EccentricityPrior'))
    if draw(st.booleans()):
        priors.append(dict(kind='PositiveKPrior'))
    for f in free:
        v = vals[f]
        if f.startswith('k'):
            priors.append(dict(kind='HardBounds', param=f, lo=0.0, hi=v + 15))
        elif f.startswith('gamma'):
            priors.append(dict(kind='Gaussian', param=f, mu=v, sigma=5.0))
        elif f == 'dvdt':
            priors.append(dict(kind='Gaussian', param=f, mu=0.0, sigma=0.3))
        else:
            w = 0.02 * v if f == 'per1' else 0.02
            priors.append(dict(kind='HardBounds', param=f, lo=v - w, hi=v + w))
    t, vel, err, tel = [], [], [], []
    for i in insts:
        n = draw(st.integers(6, nmax))
        tt = draw(gen.distinct_times(0, 60, n, n))
        t += tt
        vel += draw(st.lists(gen.fl(-15, 15), min_size=n, max_size=n))
        err += draw(st.lists(gen.fl(0.5, 3), min_size=n, max_size=n))
        tel += [i] * n
    o = draw(st.permutations(range(len(t))))
    data = dict(time=[t[j] for j in o], mnvel=[vel[j] for j in o], errvel=[err[j] for j in o], tel=[tel[j] for j in o])
    st_ = draw(st.booleans()) or stellar == 'always'
    planet = {}
    if st_ and draw(st.booleans()):
        for i in range(npl):
            if draw(st.booleans()):
                planet['rp%d' % (i + 1)] = draw(gen.fl(1, 12))
                planet['rp_err%d' % (i + 1)] = draw(gen.fl(0.01, 0.1))
    return dict(star='star_1', orbits=orbits, instnames=insts, basis=basis, bjd0=2450000.0, letters=draw(st.sampled_from([None, 'bc', 'de'])) if letters else None,
                pars=pars, data=data, index=None, priors=priors, time_base=30.0,
                stellar=dict(mstar=draw(gen.fl(0.5, 2)), mstar_err=draw(gen.fl(0.001, 0.1))) if st_ else None,
                planet=planet or None, decorr_vars=None, hnames=None, kernel_name=None)
