"""Bootstrap: environment, Hypothesis for /opt/venv's Python, the C extension, and radvel from /repo.

Nothing here relies on an earlier run: every check starts from the committed files, the installed
tools and /repo's current working tree.
"""
import atexit
import fcntl
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class HarnessError(Exception):
    """Something the check needs is missing or does not work: neither 'held' nor 'violated'."""


def scratch_root():
    """A directory of our own for everything this run writes, removed at exit."""
    base = os.environ.get("VERIF_SCRATCH")
    if base and os.path.isdir(base):
        return base
    base = tempfile.mkdtemp(prefix="vradvel-")
    os.environ["VERIF_SCRATCH"] = base
    owner = os.getpid()

    def _clean():
        if os.getpid() == owner:
            shutil.rmtree(base, ignore_errors=True)
    atexit.register(_clean)
    return base


def add_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    dest = os.path.join(scratch_root(), "pylib")
    os.makedirs(dest, exist_ok=True)
    names = ["hypothesis", "sortedcontainers", "_hypothesis_ftz_detector.py", "_hypothesis_globals.py"]
    if all(os.path.exists(os.path.join(PYVENV_SP, n)) for n in names[:2]):
        for n in names:
            src = os.path.join(PYVENV_SP, n)
            if os.path.exists(src):
                os.symlink(src, os.path.join(dest, n))
    else:
        tag = "cp%d%d" % sys.version_info[:2]
        wheels = glob.glob(os.path.join(WHEELS, "hypothesis-*%s-*.whl" % tag))
        wheels += glob.glob(os.path.join(WHEELS, "sortedcontainers-*.whl"))
        if len(wheels) < 2:
            raise HarnessError("no hypothesis for this interpreter")
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(dest)
    sys.path.append(dest)
    import hypothesis  # noqa


def build_extension():
    """Rebuild radvel's C solver from /repo's working tree (git-ignored outputs only)."""
    if REPO != "/repo":
        # development only (a mutated scratch copy): build in place there
        subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"], cwd=REPO,
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return
    lock = os.path.join(tempfile.gettempdir(), "vradvel-build.lock")
    with open(lock, "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "/opt/vp/build.sh", "--ext-only"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("the C extension does not build:\n" + r.stdout[-4000:])


def load_radvel():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import radvel
    where = os.path.realpath(radvel.__file__)
    if not where.startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError("radvel imported from %s, not from %s" % (where, REPO))
    from radvel import _kepler  # noqa: the compiled solver must be there
    return radvel
