"""Runner: generated-input search with Hypothesis, sharded over processes.

A property is a list of `Sub` checks.  Each has a strategy that builds a JSON-able
case and a function `run(case)` that drives the library and compares it with an
oracle.  `run` raises Violation when the property is broken and returns a class
label; a label that starts with '-' marks a trivial case.
"""
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Skip(Exception):
    """the case does not apply (e.g. an internal helper no longer exists)"""


class OracleError(Exception):
    """the reference itself failed: never a violation"""


class _Abort(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=None,
                 timeout=150, examples=(), fixed=False):
        self.name = name
        self.strategy = strategy      # hypothesis strategy or zero-arg callable giving one
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.timeout = timeout
        self.examples = list(examples)   # explicit JSON-able cases, always run (split over the shards)
        self.fixed = fixed               # only the explicit examples


REGISTRY = {}


class Property:
    def __init__(self, pid, title, rule, assumptions=(), setup=None):
        self.pid = pid
        self.title = title
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.setup = setup
        REGISTRY[pid] = self

    def sub(self, name, strategy=None, **kw):
        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, **kw))
            return fn
        return deco


# --------------------------------------------------------------------------
# calling the code under test

def sut(fn, *args, **kw):
    """Call library code: an exception it raises on a valid input breaks the property."""
    what = kw.pop("_what", None)
    try:
        return fn(*args, **kw)
    except (Violation, Skip):
        raise
    except SystemExit as e:
        raise Violation("%s called sys.exit(%s)" % (what or getattr(fn, "__name__", fn), e.code))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        raise Violation("%s raised %s: %s (at %s)" % (what or getattr(fn, "__name__", fn),
                                                      type(e).__name__, str(e)[:200], loc))


def need(mod, name):
    f = getattr(mod, name, None)
    if f is None:
        raise Skip("%s.%s is not there" % (getattr(mod, "__name__", mod), name))
    return f


def expect(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


_scratch = None
_note = None


class scratch:
    """a fresh directory for one case, removed afterwards"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="case", dir=_scratch)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# --------------------------------------------------------------------------

def _key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def seed_rngs(case):
    import numpy as np
    s = zlib.crc32(_key(case).encode())
    random.seed(s)
    np.random.seed(s)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s: %s (at %s)" % (type(e).__name__, str(e)[:200], ", ".join(
        "%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """returns label; raises Violation"""
    seed_rngs(case)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.timeout)
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return sub.run(case)
    except CaseTimeout:
        raise Violation("no answer within %d s" % sub.timeout)
    except (Violation, Skip, OracleError, ImportError, MemoryError):
        raise
    except AttributeError as e:
        if str(e).startswith("module "):
            raise                       # an API the harness needs is gone: an error of the check
        raise Violation("the result could not be interpreted: %s" % _where(e))
    except Exception as e:
        raise Violation("the result could not be interpreted: %s" % _where(e))
    finally:
        sys.stdout = so
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def shard_main(args):
    """one worker job: (pid, subname, shard, nshards, n, seed, budget, shrink_budget)"""
    pid, subname, shard, nshards, n, seed, budget, shrink_budget = args
    import warnings
    warnings.simplefilter("ignore")
    prop = REGISTRY[pid]
    sub = next(s for s in prop.subs if s.name == subname)
    global _scratch
    _scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    t0 = time.time()
    out = dict(sub=subname, evals=0, nontrivial=set(), classes={}, samples=[], fail=None, error=None,
               skipped=[], capped=False, invalid=0)
    best = [None, None]
    state = dict(t_fail=None)

    def one(case):
        if _note is not None:
            with open(_note, "w") as f:
                f.write(_key(case))
        try:
            label = run_case(sub, case)
        except Skip as e:
            out["skipped"].append(str(e))
            return
        except Violation as e:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            k = _key(case)
            if best[0] is None or len(k) <= len(_key(best[0])):
                best[0], best[1] = case, str(e)
            raise
        label = label or "case"
        out["evals"] += 1
        out["classes"][label] = out["classes"].get(label, 0) + 1
        if not label.startswith("-"):
            h = hashlib.md5((subname + _key(case)).encode()).hexdigest()[:16]
            if h not in out["nontrivial"]:
                out["nontrivial"].add(h)
                if len(out["samples"]) < 3:
                    out["samples"].append(dict(check=subname, cls=label, input=case))

    try:
        try:
            for case in sub.examples[shard::nshards]:
                one(case)
            if not sub.fixed and n > 0:
                import hypothesis
                from hypothesis import given, settings, HealthCheck, Phase
                strat = sub.strategy() if callable(sub.strategy) else sub.strategy

                @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                          report_multiple_bugs=False, print_blob=False,
                          suppress_health_check=list(HealthCheck),
                          phases=[Phase.generate, Phase.shrink])
                @given(strat)
                def t(case):
                    now = time.time()
                    if state["t_fail"] is not None:
                        if now - state["t_fail"] > shrink_budget:
                            raise _Abort()
                    elif now - t0 > budget:
                        out["capped"] = True
                        raise _Abort()
                    one(case)

                hypothesis.seed(zlib.crc32(("%s/%s/%d/%s" % (pid, subname, shard, seed)).encode()))(t)()
        except Violation:
            pass
        except _Abort:
            pass
        except hypothesis_flaky() as e:
            if best[0] is None:
                raise
        if best[0] is not None:
            out["fail"] = dict(case=best[0], message=best[1])
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(_scratch, ignore_errors=True)
    out["wall"] = time.time() - t0
    return out


def hypothesis_flaky():
    try:
        from hypothesis.errors import Flaky
        return Flaky
    except Exception:           # pragma: no cover
        return ()


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}


def _child(task, conn, note, deadline):
    global _note
    _note = note
    task = task[:6] + (min(task[6], max(5.0, deadline - time.time())),) + task[7:]
    r = shard_main(task)
    conn.send(r)
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_tasks(tasks, jobs, deadline):
    """One process per task.  A case that kills its process (compiled code) or never returns to the
    interpreter is reported as a violation with that very case."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="vp_notes_")
    todo = list(enumerate(tasks))[::-1]
    live = {}
    res = []

    def lost(task, note, msg, violation):
        out = dict(sub=task[1], evals=0, nontrivial=set(), classes={}, samples=[], fail=None, error=None,
                   skipped=[], capped=False, invalid=0, wall=0.0)
        case = None
        try:
            case = json.load(open(note))
        except Exception:
            pass
        if violation and case is not None:
            out["fail"] = dict(case=case, message=msg)
        else:
            out["error"] = "%s %s: %s" % (task[1], task[2], msg)
        return out

    try:
        while todo or live:
            while todo and len(live) < jobs:
                i, task = todo.pop()
                note = os.path.join(tmp, str(i))
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(task, b, note, deadline))
                p.start()
                b.close()
                live[a] = (p, task, note)
            for c in wait(list(live), timeout=5):
                p, task, note = live.pop(c)
                try:
                    res.append(c.recv())
                except EOFError:
                    p.join()
                    sig = -p.exitcode if p.exitcode and p.exitcode < 0 else 0
                    res.append(lost(task, note, "the process died with signal %d" % sig if sig else
                                    "the process ended with code %s" % p.exitcode, sig in CRASH))
                p.join()
                c.close()
            for c, (p, task, note) in list(live.items()):
                sub = next(s for s in REGISTRY[task[0]].subs if s.name == task[1])
                try:
                    age = time.time() - os.stat(note).st_mtime
                except OSError:
                    continue
                if age > sub.timeout + 60:
                    p.kill()
                    p.join()
                    live.pop(c)
                    c.close()
                    res.append(lost(task, note, "no answer within %d s" % age, True))
    finally:
        for p, _, _ in live.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run_property(pid, tier, seed, jobs=None, only=None, scale=1.0):
    prop = REGISTRY[pid]
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = 330 if tier == "quick" else 3000
    shrink_budget = 40 if tier == "quick" else 240
    if prop.setup:
        prop.setup()
    tasks = []
    for s in prop.subs:
        if only and s.name not in only:
            continue
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        k = s.shards or max(1, min(jobs, n // 10))
        if s.fixed:
            k = s.shards or 1
            for i in range(k):
                tasks.append((pid, s.name, i, k, 0, seed, budget, shrink_budget))
            continue
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            tasks.append((pid, s.name, i, k, m, seed, budget, shrink_budget))
    res = run_tasks(tasks, jobs, t0 + (600 if tier == "quick" else 10 ** 6))
    errors = [r for r in res if r["error"]]
    fails = [(r["sub"], r["fail"]) for r in res if r["fail"]]
    subs = {}
    distinct = set()
    samples = []
    for r in res:
        d = subs.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, classes={}, capped=False, skipped=[]))
        d["evaluations"] += r["evals"]
        distinct |= r["nontrivial"]
        d.setdefault("_nt", set()).update(r["nontrivial"])
        for k, v in r["classes"].items():
            d["classes"][k] = d["classes"].get(k, 0) + v
        d["capped"] |= r["capped"]
        d["skipped"] += [x for x in r["skipped"] if x not in d["skipped"]]
    for d in subs.values():
        d["nontrivial"] = len(d.pop("_nt"))
        if not d["skipped"]:
            d.pop("skipped")
    seen = {}
    for r in res:
        for s in r["samples"]:
            if seen.get(s["check"], 0) < 1:
                seen[s["check"]] = seen.get(s["check"], 0) + 1
                samples.append(s)
    return dict(prop=prop, subs=subs, distinct=distinct, samples=samples, errors=errors, fails=fails,
                wall=time.time() - t0, evals=sum(d["evaluations"] for d in subs.values()))


def write_evidence(pid, tier, seed, r, violations):
    prop = r["prop"]
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    samples = []
    for s in r["samples"][:12]:
        txt = json.dumps(s["input"], separators=(",", ":"))
        samples.append("%s [%s] %s" % (s["check"], s["cls"], txt if len(txt) < 600 else txt[:600] + "..."))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=r["evals"], distinct_nontrivial=len(r["distinct"]),
                            rule=prop.rule, samples=samples, checks=r["subs"]),
              assumptions=prop.assumptions, wall_s=round(r["wall"], 2), violations=violations)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def save_replay(pid, sub, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, sub))
    with open(p, "w") as f:
        json.dump(dict(property=pid, check=sub, case=fail["case"], message=fail["message"]), f, indent=1)
    return p
