"""C11: the celerite GP equals the dense GP with the same kernel."""
from vlib import gpcheck
from vlib.core import Sub

PROPERTY = "C11"
RULE = ("1-2 celerite instruments with 1-12 unsorted observations and 6-15 operations; non-trivial: the history changes a value and "
        "predicts, with at least two observations")
SUBCHECKS = [Sub("celerite", gpcheck.case(('Celerite',), zero=False), gpcheck.run, quick=350, thorough=5000, weight=2),
             Sub("long", gpcheck.case(('Celerite',), zero=False, nmax=40), gpcheck.run, quick=60, thorough=600, weight=1),
             Sub("mixed", gpcheck.case(('Celerite', 'Celerite', 'SqExp'), zero=False), gpcheck.run, quick=150, thorough=1500, weight=1),
             Sub("singular", gpcheck.singular_case(('Celerite',)), gpcheck.run_singular, quick=80, thorough=1000, weight=1)]
