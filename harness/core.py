"""Runner: generated-input search, shrinking, replay files, evidence.

A check module (checks/cNN.py) defines

    PROPERTY = "Cnn"
    RULE     = "how cases are made and when one is non-trivial"
    SUBS     = [Sub(name, strategy, check, quick=N, thorough=M), ...]

`strategy` generates one JSON-able case; `check(case)` raises Violation (or
AssertionError) when the property is broken on that case and returns a
`Result` / bool saying whether the case was non-trivial.  Every random choice
is made by hypothesis; every case is plain data, so that the shrunk failing
case *is* the replay file.
"""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import harness
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st  # noqa: F401  (re-exported)

try:                       # bound the time spent minimising a failing case
    import hypothesis.internal.conjecture.engine as _eng
    _eng.MAX_SHRINKING_SECONDS = 60
except Exception:          # pragma: no cover
    pass

CASE_TIMEOUT_S = 200       # a case that normally takes <3 s and runs this long hangs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a failure)."""


class HarnessError(Exception):
    """The machinery itself is wrong; never reported as a violation."""


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=None, shards=None,
                 exhaustive=None):
        self.name = name
        self.strategy = strategy          # hypothesis strategy or None
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.exhaustive = exhaustive      # callable -> list of cases, enumerated completely


# --------------------------------------------------------------------------
# assertion helpers
# --------------------------------------------------------------------------

def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rel=1e-7, abs_=1e-7):
    if a is None or b is None:
        return a is b
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def require_close(actual, expected, what, rel=1e-7, abs_=1e-7):
    if not close(actual, expected, rel, abs_):
        raise Violation(f"{what}: got {actual!r}, expected {expected!r}")


def require_seq_close(actual, expected, what, rel=1e-7, abs_=1e-7):
    actual = list(actual)
    expected = list(expected)
    if len(actual) != len(expected):
        raise Violation(f"{what}: length {len(actual)} != expected {len(expected)}")
    for i, (a, b) in enumerate(zip(actual, expected)):
        if not close(a, b, rel, abs_):
            raise Violation(f"{what}[{i}]: got {a!r}, expected {b!r}")


@contextlib.contextmanager
def quiet():
    """Swallow stdout and warnings of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def expect_raises(fn, excs, what):
    """fn() must raise one of excs (an exception of another type is a violation too)."""
    try:
        with quiet():
            r = fn()
    except excs:
        return
    except Exception as e:  # wrong type of error
        raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of "
                        f"{'/'.join(x.__name__ for x in excs)}")
    raise Violation(f"{what}: accepted (returned {type(r).__name__})")


# --------------------------------------------------------------------------
# running one sub-property
# --------------------------------------------------------------------------

def _from_repo(tb_text_frames):
    src = os.path.realpath(harness.SRC)
    return any(os.path.realpath(f.filename).startswith(src) for f in tb_text_frames)


class _Stats:
    def __init__(self):
        self.evals = 0
        self.skipped = 0
        self.distinct = set()
        self.samples = []
        self.labels = {}

    def note(self, case, res):
        self.evals += 1
        nontrivial, labels = True, ()
        if isinstance(res, tuple):
            nontrivial, labels = res
        elif res is not None:
            nontrivial = bool(res)
        for lb in labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if nontrivial:
            s = json.dumps(case, sort_keys=True, default=repr)
            h = hashlib.sha1(s.encode()).digest()[:10]
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3:
                    self.samples.append(case if len(s) <= 1500 else s[:1500] + "...")


@contextlib.contextmanager
def _time_limit():
    def fire(signum, frame):
        raise Violation(f"no result within {CASE_TIMEOUT_S} s (does not terminate)")
    old = signal.signal(signal.SIGALRM, fire)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def evaluate(sub, case, stats=None):
    """Run one case. Returns None, or (message) when it is a violation."""
    try:
        with quiet(), _time_limit():
            res = sub.check(case)
        if stats is not None:
            stats.note(case, res)
        return None
    except Skip:
        if stats is not None:
            stats.evals += 1
            stats.skipped += 1
        return None
    except Violation as e:
        return str(e) or "violation"
    except hypothesis.errors.HypothesisException:
        raise
    except HarnessError:
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if _from_repo(frames):
            last = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(harness.SRC))][-1]
            return (f"unexpected {type(e).__name__}: {e} "
                    f"({os.path.relpath(last.filename, harness.SRC)}:{last.lineno} in {last.name})")
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError)):
            # the oracle could not read what the code returned (None, a missing attribute, another type or length, ...)
            last = frames[-1]
            return f"result of the wrong kind: {type(e).__name__}: {e} ({os.path.basename(last.filename)}:{last.lineno} {last.line})"
        raise HarnessError("".join(traceback.format_exception(e)))


def _seed_for(base, prop, sub, shard):
    h = hashlib.sha256(f"{base}/{prop}/{sub}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(prop, sub, tier, base_seed, shard, n_examples):
    stats = _Stats()
    failure = {}
    t0 = time.time()
    if sub.exhaustive is not None:
        cases = sub.exhaustive()
        for k, case in enumerate(cases):
            if k % max(1, n_examples) != shard:   # n_examples = number of shards here
                continue
            msg = evaluate(sub, case, stats)
            if msg is not None:
                failure = {"case": case, "msg": msg}
                break
    else:
        class _Fail(Exception):
            pass

        def body(case):
            msg = evaluate(sub, case, stats)
            if msg is not None:
                failure["case"] = case
                failure["msg"] = msg
                raise _Fail(msg)

        test = given(sub.strategy)(body)
        test = settings(
            max_examples=n_examples, deadline=None, database=None,
            derandomize=False, report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink),
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(_seed_for(base_seed, prop, sub.name, shard))(test)
        try:
            test()
        except _Fail:
            pass
        except hypothesis.errors.Flaky as e:
            # failed once, passed when repeated with identical input: the code under
            # test (or the harness) is not a function of the case.  Report the case.
            if not failure:
                raise HarnessError(f"flaky without failing case: {e}")
            failure["msg"] += "  [not reproducible on repetition: hidden state]"
    return {
        "sub": sub.name, "shard": shard, "evals": stats.evals, "skipped": stats.skipped,
        "distinct": stats.distinct, "samples": stats.samples, "labels": stats.labels,
        "failure": failure, "secs": time.time() - t0,
    }


def _worker(args):
    modname, subname, tier, seed, shard, n = args
    try:
        import importlib
        mod = importlib.import_module(modname)
        sub = next(s for s in mod.SUBS if s.name == subname)
        return run_shard(mod.PROPERTY, sub, tier, seed, shard, n)
    except Exception:
        return {"error": traceback.format_exc(), "sub": subname, "shard": shard}


def _jsonable(case):
    return json.loads(json.dumps(case, default=repr))


def run_property(modname, tier, seed):
    import importlib
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    t0 = time.time()
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    jobs = []
    only = os.environ.get("VERIF_SUB")           # development aid: run one sub-check
    for sub in mod.SUBS:
        if only and sub.name not in only.split(","):
            continue
        if sub.exhaustive is not None:
            shards = sub.shards or 1
            for k in range(shards):
                jobs.append((modname, sub.name, tier, seed, k, shards))
            continue
        n = sub.quick if tier == "quick" else sub.thorough
        shards = sub.shards or max(1, min(8, n // 25))
        if tier == "thorough":
            shards = max(shards, 8)
        shards = max(1, min(shards, n))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            jobs.append((modname, sub.name, tier, seed, k, m))
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        results = pool.map(_worker, jobs, chunksize=1)
    errors = [r for r in results if "error" in r]
    ok = [r for r in results if "error" not in r]
    per_sub, distinct_total, evals, samples = {}, 0, 0, []
    failures = []
    for sub in mod.SUBS:
        rs = [r for r in ok if r["sub"] == sub.name]
        d = set()
        labels = {}
        for r in rs:
            d |= r["distinct"]
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        e = sum(r["evals"] for r in rs)
        per_sub[sub.name] = {
            "evaluations": e, "distinct_nontrivial": len(d),
            "outside_domain": sum(r["skipped"] for r in rs),
            "classes": dict(sorted(labels.items())),
            "cpu_s": round(sum(r["secs"] for r in rs), 2),
        }
        if sub.exhaustive is not None:
            per_sub[sub.name]["exhaustive"] = True
        evals += e
        distinct_total += len(d)
        for r in rs[:1]:
            for s in r["samples"][:2]:
                samples.append({"sub": sub.name, "case": _jsonable(s)})
        fs = [r["failure"] for r in rs if r["failure"]]
        if fs:  # one per sub: the smallest
            fs.sort(key=lambda f: len(json.dumps(f["case"], default=repr)))
            failures.append((sub.name, fs[0]))
    wall = time.time() - t0

    lines = []
    replays = []
    for name, f in failures:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{name}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "sub": name, "case": f["case"], "message": f["msg"],
                       "seed": seed, "tier": tier}, fh, indent=1, default=repr)
        replays.append(path)
        lines.append(f"  {name}: {f['msg']}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct_total,
            "rule": mod.RULE, "samples": samples[:12], "sub_checks": per_sub,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3), "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} {tier} seed={seed}: {evals} cases, {distinct_total} distinct non-trivial, "
          f"{wall:.1f}s, {len(failures)} violation(s)")
    for s, v in per_sub.items():
        print(f"  - {s}: {v['evaluations']} cases, {v['distinct_nontrivial']} non-trivial, "
              f"{v['outside_domain']} outside, cpu {v['cpu_s']}s {v['classes'] or ''}")
    if failures:
        for ln in lines:
            print(ln)
        for p in replays:
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if errors:
        print("HARNESS ERROR", file=sys.stderr)
        for r in errors[:3]:
            print(f"[{r['sub']}/{r['shard']}] {r['error']}", file=sys.stderr)
        return 2
    return 0


def replay(path):
    import importlib
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module("checks." + rec["property"].lower())
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    msg = evaluate(sub, rec["case"])
    if msg is None:
        print(f"{rec['property']}/{rec['sub']}: replayed case passes")
        return 0
    print(f"{rec['property']}/{rec['sub']}: {msg}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1
