"""Runner: each property is a set of sub-checks; a sub-check is (Hypothesis strategy, oracle function).

A case is plain JSON data, so a shrunk failure is written out whole and replays without Hypothesis.
Sub-checks run in forked children (in parallel, up to the number of cores), so that a process killed
by the code under test (the C solver calls exit()) is seen and attributed to the case that did it.
"""
import collections
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import boot

REPO_PKG = os.path.realpath(os.path.join(boot.REPO, "radvel")) + os.sep


class Violation(AssertionError):
    """The property does not hold on this case."""


class _Stop(BaseException):
    """Budget used up: stop generating (or shrinking)."""


class _Harness(BaseException):
    """The harness itself failed: an error of the check, not a verdict."""


class CaseTimeout(Violation):
    pass


class CaseStuck(BaseException):
    """A case took LIMIT seconds: a violation when the code under test is what does not return."""


LIMIT = 100


class Sub(object):
    """One sub-check: a strategy for cases and an oracle fn(case, ctx)."""

    def __init__(self, name, strategy, fn, quick=200, thorough=None, budget=120, case_timeout=None, weight=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.budget = budget              # seconds of generation (quick)
        self.case_timeout = case_timeout  # seconds; only where termination is part of the property
        self.weight = weight


def known_findings(prop):
    """Listed findings of the property: {id: text} (lines "known: property=ID id=NAME text")."""
    out = {}
    with open(os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")) as fh:
        for line in fh:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("id="):
                out[w[2][3:]] = w[3].strip()
    return out


class Ctx(object):
    listed = {}                           # listed findings of the property being checked

    def __init__(self):
        self.labels = collections.Counter()
        self.known_seen = set()
        self._nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def known(self, name, msg):
        """The failure `name` happened: a violation unless it is a listed finding."""
        if name not in self.listed:
            raise Violation(msg)
        self.known_seen.add(name)


# ---------------------------------------------------------------- oracles' helpers

def fail(msg, **kw):
    if kw:
        msg += " | " + ", ".join("%s=%s" % (k, _short(v)) for k, v in kw.items())
    raise Violation(msg)


def require(cond, msg, **kw):
    if not bool(cond):
        fail(msg, **kw)


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def close(got, want, rtol=1e-9, atol=1e-12, msg="values differ", **kw):
    """Element-wise |got-want| <= atol + rtol*|want|; infinities must agree; NaN never equals."""
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        fail(msg + " (not numeric)", got=got, want=want, **kw)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        try:
            g, w2 = np.broadcast_arrays(g, w)
        except ValueError:
            fail(msg + " (shape)", got=g.shape, want=w.shape, **kw)
        if g.shape != w.shape and w.ndim != 0:
            fail(msg + " (shape)", got=g.shape, want=w.shape, **kw)
        w = w2
    with np.errstate(all="ignore"):
        ok = np.abs(g - w) <= (np.asarray(atol) + rtol * np.abs(w))
        ok |= (g == w)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        gg, ww = np.atleast_1d(g)[tuple(i)], np.atleast_1d(w)[tuple(i)]
        fail(msg, at=list(map(int, i)), got=float(gg), want=float(ww), diff=float(gg - ww), **kw)


def close_mod(got, want, period, atol, msg="values differ modulo the period", **kw):
    d = (np.asarray(got, float) - np.asarray(want, float)) / period
    d = np.abs(d - np.round(d)) * period
    if not np.all(d <= atol):
        fail(msg, got=got, want=want, period=period, diff=d, **kw)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    return x


# ---------------------------------------------------------------- classifying exceptions

def through_repo(exc):
    """True if the innermost frame that is ours or the repository's is the repository's."""
    last = None
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO_PKG) or f.endswith("_kepler.pyx") or "_kepler" in os.path.basename(f):
            last = "repo"
        elif f.startswith(boot.VERIF + os.sep) and tb.tb_frame.f_code.co_name != "_alarm":
            last = "verif"
        tb = tb.tb_next
    return last == "repo"


# ---------------------------------------------------------------- child

def run_case(sub, case, ctx):
    """Evaluate one case; returns None, or raises Violation / _Harness."""
    from hypothesis.errors import HypothesisException

    def _alarm(*a):
        if sub.case_timeout:
            raise CaseTimeout("no answer after %g s" % sub.case_timeout)
        raise CaseStuck("no answer after %g s" % LIMIT)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.case_timeout or LIMIT)
    try:
        with np.errstate(all="ignore"):
            sub.fn(case, ctx)
    except Violation:
        raise
    except HypothesisException:
        raise
    except MemoryError as e:
        raise _Harness("".join(traceback.format_exception(e)))
    except (Exception, SystemExit, CaseStuck) as e:
        if through_repo(e):
            tbs = traceback.format_exception(e)
            raise Violation("the code under test raised %s: %s\n%s"
                            % (type(e).__name__, e, "".join(tbs[-6:]))) from None
        raise _Harness("".join(traceback.format_exception(e)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def child(sub, seed, n, budget, out):
    """Run one sub-check with one seed; leave a JSON result in out."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    hypothesis.settings.register_profile("v", database=None)
    hypothesis.settings.load_profile("v")
    cur = os.open(out + ".case", os.O_RDWR | os.O_CREAT, 0o600)
    st = dict(evaluations=0, samples=[], best=None, error=None, t_fail=None)
    labels = collections.Counter()
    distinct = set()
    seen = set()
    t0 = time.monotonic()

    def body(case):
        blob = json.dumps(jsonable(case))
        case = json.loads(blob)
        now = time.monotonic()
        if st["t_fail"] is not None and now - st["t_fail"] > 45:
            raise _Stop()
        if st["t_fail"] is None and now - t0 > budget:
            raise _Stop()
        data = blob.encode()
        os.pwrite(cur, data, 0)
        os.ftruncate(cur, len(data))
        ctx = Ctx()
        st["evaluations"] += 1
        try:
            run_case(sub, case, ctx)
        except Violation as e:
            if st["t_fail"] is None:
                st["t_fail"] = time.monotonic()
            if st["best"] is None or len(blob) <= len(st["best"][0]):
                st["best"] = (blob, str(e))
            raise Violation("property fails") from None
        seen.update(ctx.known_seen)
        if st["t_fail"] is None:
            labels.update(ctx.labels)
            if ctx._nontrivial:
                h = hashlib.sha1(data).digest()[:12]
                if h not in distinct:
                    distinct.add(h)
                    k = len(distinct)
                    if k in (1, 7, 40, 200) and len(blob) < 6000:
                        st["samples"].append(case)

    test = given(case=sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        st["stopped"] = True
    except _Harness as e:
        st["error"] = str(e)
    except BaseException as e:  # noqa
        if st["best"] is None:
            st["error"] = "".join(traceback.format_exception(e))
    res = dict(name=sub.name, seed=seed, evaluations=st["evaluations"], distinct=len(distinct),
               hashes=[h.hex() for h in distinct] if len(distinct) < 300000 else [],
               labels=dict(labels), samples=st["samples"], violation=st["best"], error=st["error"],
               known=sorted(seen), stopped=st.get("stopped", False), wall=time.monotonic() - t0)
    with open(out, "w") as fh:
        json.dump(res, fh)


# ---------------------------------------------------------------- parent

def _spawn(sub, seed, n, budget, out, scratch):
    pid = os.fork()
    if pid:
        return pid
    code = 70
    try:
        wd = os.path.join(scratch, "w-" + os.path.basename(out))
        os.makedirs(wd)
        os.chdir(wd)
        os.environ["TMPDIR"] = wd
        import tempfile
        tempfile.tempdir = wd
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        err = os.open(out + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(err, 2)
        child(sub, seed, n, budget, out)
        code = 0
    except BaseException:  # noqa
        traceback.print_exc()
    finally:
        try:
            sys.stderr.flush()
        except Exception:  # noqa
            pass
        os._exit(code)


def write_replay(prop, name, blob, message):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(blob.encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, name, h))
    with open(path, "w") as fh:
        json.dump(dict(property=prop, sub=name, case=json.loads(blob), message=message,
                       how="bash /verif/run.sh --replay <this file>"), fh, indent=1)
    return path


def run_property(mod, tier, seed):
    t0 = time.monotonic()
    prop = mod.PROPERTY
    Ctx.listed = known_findings(prop)
    scratch = boot.scratch_root()
    subs = list(enumerate(mod.SUBCHECKS))
    only = os.environ.get("VERIF_ONLY")
    if only:
        subs = [(i, s) for i, s in subs if s.name in only.split(",")]
    jobs = []
    # the quick tier uses the cores that are left over for further shards of the heaviest sub-checks
    split = {i: 1 for i, _ in subs}
    while subs and sum(split.values()) < 8:
        split[max(subs, key=lambda x: x[1].weight / split[x[0]])[0]] += 1
    for i, s in subs:
        if tier == "thorough":
            shards = 8
            for k in range(shards):
                jobs.append((s, (seed * 1000003 + 7919 * k + i) % (2 ** 62), s.thorough, s.budget * 8, k))
        else:
            for k in range(split[i]):
                jobs.append((s, (seed + 7919 * i + 1000003 * k) % (2 ** 62), 2 * s.quick, min(s.budget, 60), k))
    jobs.sort(key=lambda j: -j[0].weight)
    ncpu = min(8, os.cpu_count() or 1)
    running, results, queue = {}, [], list(enumerate(jobs))
    violation = None
    while queue or running:
        while queue and len(running) < ncpu:
            idx, (s, sd, n, b, k) = queue.pop(0)
            out = os.path.join(scratch, "r%d-%s" % (idx, s.name))
            pid = _spawn(s, sd, n, b, out, scratch)
            # generous: generation budget + shrinking + the last case
            running[pid] = (s, out, time.monotonic() + b + 240 + 4 * (s.case_timeout or LIMIT))
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.monotonic()
            for p, (s, out, dead) in list(running.items()):
                if now > dead:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del running[p]
                    if s.case_timeout:
                        blob = open(out + ".case").read()
                        results.append(dict(name=s.name, evaluations=0, distinct=0, labels={}, samples=[],
                                            hashes=[], error=None, wall=0,
                                            violation=(blob, "the call does not terminate")))
                    else:
                        results.append(dict(name=s.name, evaluations=0, distinct=0, labels={}, samples=[],
                                            hashes=[], violation=None, wall=0,
                                            error="sub-check ran out of time in the case " + open(out + ".case").read()))
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        s, out, _ = running.pop(pid)
        if os.path.exists(out):
            results.append(json.load(open(out)))
            continue
        blob = open(out + ".case").read() if os.path.exists(out + ".case") else ""
        errtxt = open(out + ".err").read()[-3000:] if os.path.exists(out + ".err") else ""
        res = dict(name=s.name, evaluations=0, distinct=0, labels={}, samples=[], hashes=[], violation=None,
                   error=None, wall=0)
        crashed = (os.WIFEXITED(status) and os.WEXITSTATUS(status) not in (0, 70)) or \
                  (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT,
                                                                     signal.SIGFPE, signal.SIGBUS))
        if crashed and blob:
            res["violation"] = (blob, "the code under test ended the process (status %d): %s" % (status, errtxt))
        else:
            res["error"] = "child ended with status %d\n%s" % (status, errtxt)
        results.append(res)
    for r in results:
        if r["violation"] and (violation is None or len(r["violation"][0]) < len(violation[1])):
            violation = (r["name"], r["violation"][0], r["violation"][1])
    errors = [r for r in results if r["error"]]

    ev = collections.OrderedDict()
    persub = {}
    hashes = set()
    for r in results:
        p = persub.setdefault(r["name"], dict(evaluations=0, distinct_nontrivial=0, labels=collections.Counter(),
                                              stopped_early=0, wall_s=0.0))
        p["evaluations"] += r["evaluations"]
        p["labels"].update(r["labels"])
        p["stopped_early"] += int(bool(r.get("stopped")))
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        new = set(r["name"] + h for h in r["hashes"]) - hashes
        p["distinct_nontrivial"] += len(new)
        hashes |= new
    samples = []
    for r in results:
        if not any(s["sub"] == r["name"] for s in samples):
            for c in r["samples"][:2]:
                samples.append(dict(sub=r["name"], case=c))
    ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, "exploration"
    ev["coverage"] = dict(
        evaluations=sum(p["evaluations"] for p in persub.values()),
        distinct_nontrivial=sum(p["distinct_nontrivial"] for p in persub.values()),
        rule=mod.RULE, samples=samples,
        per_subcheck={k: dict(v, labels=dict(v["labels"].most_common(40))) for k, v in persub.items()})
    ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []))
    ev["violations"] = int(violation is not None)
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    for name, p in persub.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %.1f s%s  %s" % (
            prop, name, p["evaluations"], p["distinct_nontrivial"], p["wall_s"],
            " (stopped at its time budget)" if p["stopped_early"] else "",
            dict(p["labels"].most_common(12)) if os.environ.get("VERIF_V") else ""))
    for k in sorted(set(k for r in results for k in r.get("known", []))):
        print("KNOWN-FINDING: property=%s %s" % (prop, Ctx.listed[k]))
    if violation is not None:
        path = write_replay(prop, *violation)
        print("%s/%s fails:\n%s" % (prop, violation[0], violation[2]))
        print("case: %s" % violation[1][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors:
            print("%s/%s: ERROR of the check (no verdict)\n%s" % (prop, r["name"], r["error"]))
        return 3
    vac = [k for k, p in persub.items() if p["distinct_nontrivial"] < 2]
    if vac:
        print("ERROR of the check: no non-trivial case in", vac)
        return 3
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def replay(mod, path):
    d = json.load(open(path))
    Ctx.listed = known_findings(mod.PROPERTY)
    sub = [s for s in mod.SUBCHECKS if s.name == d["sub"]][0]
    try:
        run_case(sub, d["case"], Ctx())
    except Violation as e:
        print("reproduced: %s" % e)
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    except _Harness as e:
        print("harness error: %s" % e)
        return 3
    print("the case passes")
    return 0
