"""C10: GP likelihood and prediction are exact Gaussian conditioning."""
from vlib import gpcheck
from vlib.core import Sub

PROPERTY = "C10"
RULE = ("1-2 GP instruments with 1-12 observations and 6-15 operations (evaluate, predict, residuals, change of values by name, row "
        "or array, GP switched off and on); non-trivial: the history changes a value and predicts, with at least two observations")
SUBCHECKS = [Sub("quasiper", gpcheck.case(('QuasiPer',)), gpcheck.run, quick=250, thorough=3500, weight=2),
             Sub("others", gpcheck.case(('SqExp', 'Per')), gpcheck.run, quick=200, thorough=2500, weight=2),
             Sub("mixed", gpcheck.case(('SqExp', 'Per', 'QuasiPer')), gpcheck.run, quick=150, thorough=2500, weight=2),
             Sub("singular", gpcheck.singular_case(('SqExp', 'Per', 'QuasiPer')), gpcheck.run_singular, quick=80, thorough=1000, weight=1)]
