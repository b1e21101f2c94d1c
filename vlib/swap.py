"""Stand-ins: replace a function or class of radvel under every name by which radvel's own modules know it, however they import it."""
import contextlib
import sys


@contextlib.contextmanager
def everywhere(obj, new, prefixes=('radvel',)):
    done = []
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split('.')[0] not in prefixes:
            continue
        for k, v in list(vars(mod).items()):
            if v is obj:
                setattr(mod, k, new)
                done.append((mod, k))
    if not done:
        raise LookupError("nothing to replace: %r" % (obj,))
    try:
        yield new
    finally:
        for mod, k in done:
            setattr(mod, k, obj)
