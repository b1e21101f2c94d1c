"""python check.py <ID> [quick|thorough]   |   python check.py --replay FILE"""
import importlib
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import boot  # noqa


def main(argv):
    try:
        boot.scratch_root()
        boot.add_hypothesis()
        boot.build_extension()
        warnings.simplefilter("ignore")
        os.environ["PYTHONWARNINGS"] = "ignore"
        boot.load_radvel()
        warnings.simplefilter("ignore")
    except Exception as e:  # noqa
        print("ERROR of the check: %s: %s" % (type(e).__name__, e))
        return 3
    from vlib import core
    if argv[0] == "--replay":
        d = json.load(open(argv[1]))
        mod = importlib.import_module("checks." + d["property"])
        return core.replay(mod, argv[1])
    try:
        mod = importlib.import_module("checks." + argv[0])
    except Exception as e:  # noqa
        print("ERROR of the check: %s: %s" % (type(e).__name__, e))
        return 3
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run_property(mod, tier, seed)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
