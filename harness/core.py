"""Machinery shared by the checks: running a property over generated cases in
parallel, shrinking, replay files, evidence, exit codes."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
SHRINK_BUDGET = 30.0  # seconds spent on making a failing case smaller


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


# ---- helpers for the properties ------------------------------------------
@contextlib.contextmanager
def sut(what):
    """Calls into the code under test with inputs it has to accept."""
    try:
        yield
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        raise Violation("%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], loc))


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def arr(x, shape, what, finite=True):
    """x as a finite float array of the given shape (None: any)."""
    try:
        a = np.array(x, dtype=float)
    except Exception as e:
        raise Violation("%s is not a numeric array (%s): %r" % (what, e, x))
    if shape is not None and a.shape != tuple(shape):
        raise Violation("%s has shape %s instead of %s" % (what, a.shape, tuple(shape)))
    if finite and not np.all(np.isfinite(a)):
        raise Violation("%s is not finite: %s" % (what, a))
    return a


def close(got, ref, tol, what, scale=0.0, atol=0.0):
    """max |got-ref| <= tol*max(max|ref|, scale) + atol, same shape, finite."""
    ref = np.asarray(ref, float)
    g = arr(got, ref.shape, what)
    if ref.size == 0:
        return
    d = float(np.max(np.abs(g - ref)))
    s = max(float(np.max(np.abs(ref))), scale)
    if not d <= tol * s + atol:
        raise Violation("%s = %s, expected %s (difference %.3g, allowed %.3g)" % (what, _s(g), _s(ref), d, tol * s + atol))


def close_each(got, ref, tol, what, atol=0.0):
    """elementwise |got-ref| <= tol*|ref| + atol"""
    ref = np.asarray(ref, float)
    g = arr(got, ref.shape, what)
    bad = ~(np.abs(g - ref) <= tol * np.abs(ref) + atol)
    if np.any(bad):
        raise Violation("%s = %s, expected %s" % (what, _s(g), _s(ref)))


def same(got, ref, what):
    """bitwise the same numbers"""
    g = np.asarray(got)
    r = np.asarray(ref)
    if g.shape != r.shape or not np.array_equal(g, r, equal_nan=g.dtype.kind == "f" and r.dtype.kind == "f"):
        raise Violation("%s: %s is not identical to %s" % (what, _s(g), _s(r)))


def _s(a):
    with np.printoptions(precision=10, threshold=20, edgeitems=4):
        return str(a).replace("\n", "")


def info(nontrivial=True, classes=(), evals=1):
    return dict(nontrivial=bool(nontrivial), classes=[c for c in classes if c], evals=evals)


def skip(reason):
    """The case is outside the property's domain (counted, not judged)."""
    return dict(nontrivial=False, classes=["set aside: " + reason], evals=0)


# ---- running ------------------------------------------------------------------
def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_case(prop, case):
    """None or a message if violated."""
    try:
        return prop.check(case), None
    except Violation as v:
        return None, str(v)
    except (HarnessError, MemoryError):
        raise
    except Exception as e:  # noqa
        # results of a kind the check cannot even interpret (nothing of the sort happens on a tree where the property holds)
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        return None, "unexpected result (%s: %s) [%s]" % (type(e).__name__, str(e)[:300], loc)


def _fresh(p):
    """Hypothesis follows most generated cases with five near-copies of it (parts of the case duplicated elsewhere);
    do that for a fraction p of the cases only, so that the budget goes to fresh ones."""
    import random

    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as Runner

        orig = Runner.generate_mutations_from
        if getattr(orig, "_fresh", False):
            return
        rnd = random.Random(0)

        def some(self, data):
            if rnd.random() < p:
                return orig(self, data)

        some._fresh = True
        Runner.generate_mutations_from = some
    except (ImportError, AttributeError):  # another Hypothesis: its own mix of cases
        pass


def _worker(args):
    prop_name, seed, n, idx = args
    import importlib
    import logging

    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(devnull, 1)
        logging.disable(logging.CRITICAL)
        np.seterr(all="ignore")
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        prop = importlib.import_module("props." + prop_name)
        st = dict(evals=0, cases=0, keys=set(), classes={}, samples=[], failing={}, t0=None, best=None)

        def body(case):
            k = key(case)
            if st["t0"] is not None and time.time() - st["t0"] > SHRINK_BUDGET:
                if k in st["failing"]:
                    raise Violation(st["failing"][k])
                return
            r, msg = run_case(prop, case)
            if msg is not None:
                st["failing"][k] = msg
                if st["t0"] is None:
                    st["t0"] = time.time()
                size = len(json.dumps(case))
                if st["best"] is None or size <= st["best"][0]:
                    st["best"] = (size, case, msg)
                raise Violation(msg)
            if st["t0"] is None:
                st["cases"] += 1
                st["evals"] += r["evals"]
                for c in r["classes"]:
                    st["classes"][c] = st["classes"].get(c, 0) + 1
                if r["nontrivial"]:
                    st["keys"].add(k)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)

        _fresh(0.15)
        f = hypothesis.seed(seed)(
            settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                     suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                     print_blob=False)(given(prop.strategy())(body)))
        final = None
        orig = prop.check
        try:
            f()
        except Violation:
            final = st["best"]
        except Exception as e:
            if st["best"] is not None and type(e).__name__.startswith("Flaky"):
                final = st["best"]
            else:
                raise
        return dict(ok=True, evals=st["evals"], cases=st["cases"], keys=st["keys"], classes=st["classes"],
                    samples=st["samples"], fail=final)
    except BaseException as e:  # noqa
        return dict(ok=False, err="%s\n%s" % (e, traceback.format_exc()))


def regress_cases(pid):
    d = os.path.join(VERIF, "regress")
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.startswith(pid + "-") and f.endswith(".json"):
                out.append((f, json.load(open(os.path.join(d, f)))["case"]))
    return out


def known_findings(pid):
    """open findings: lines 'finding: property=<id> case=<file in regress/known> <what>'"""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("case=", 1)[1].strip()
                fn, what = rest.split(" ", 1)
                out.append((json.load(open(os.path.join(VERIF, fn)))["case"], what))
    return out


def write_replay(pid, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, key(case)[:12]))
    with open(p, "w") as f:
        json.dump(dict(property=pid, case=case, message=msg), f, indent=1)
    return p


def run_property(prop_name, tier, seed):
    import importlib
    import multiprocessing as mp

    t0 = time.time()
    prop = importlib.import_module("props." + prop_name)
    pid = prop.ID
    evals = 0
    cases = 0
    keys = set()
    classes = {}
    samples = []
    fails = []
    # 1. minimal cases of defects found earlier
    devnull = open(os.devnull, "w")
    nreg = 0
    for name, case in regress_cases(pid):
        with contextlib.redirect_stdout(devnull):
            r, msg = run_case(prop, case)
        nreg += 1
        if msg is not None:
            fails.append((0, case, "[%s] %s" % (name, msg)))
        else:
            evals += r["evals"]
            cases += 1
            if r["nontrivial"]:
                keys.add(key(case))
    for case, what in known_findings(pid):
        with contextlib.redirect_stdout(devnull):
            r, msg = run_case(prop, case)
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    # 2. the generated search
    n = prop.N[tier]
    per = max(1, -(-n // NPROC))
    jobs = [(prop_name, seed * 1000 + k, per, k) for k in range(NPROC)]
    with mp.get_context("fork").Pool(NPROC) as pool:
        res = pool.map(_worker, jobs, chunksize=1)
    for r in res:
        if not r["ok"]:
            raise HarnessError(r["err"])
        evals += r["evals"]
        cases += r["cases"]
        keys |= r["keys"]
        for c, m in r["classes"].items():
            classes[c] = classes.get(c, 0) + m
        samples += r["samples"]
        if r["fail"]:
            fails.append(r["fail"])
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=prop.RULE, samples=samples[:3],
                            cases=cases, regression_cases=nreg,
                            classes=dict(sorted(classes.items()))),
              assumptions=getattr(prop, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    if fails:
        fails.sort(key=lambda t: t[0])
        _, case, msg = fails[0]
        path = write_replay(pid, case, msg)
        print("violated: " + " ".join(msg.split()))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s" % (pid, cases, evals, len(keys), wall))
    for c, m in sorted(classes.items()):
        print("   %-50s %d" % (c, m))
    if not keys:
        raise HarnessError("no non-trivial case was generated")
    return 0
