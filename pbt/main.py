"""usage: main.py PID [--tier quick|thorough] [--seed N] [--only SUB,..] [--replay FILE] [--scale X] [--jobs N]"""
import os
import sys
import time

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
# hypothesis lives in the pre-installed tooling venv (same Python); appended last, so that
# numpy, scipy and the library come from the project's own environment
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.isdir(_VT):
    sys.path.append(_VT)


def main(argv):
    import argparse
    import importlib
    import json
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=None)
    a = ap.parse_args(argv)
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    from pbt import core
    importlib.import_module("pbt.checks." + a.pid.lower())
    prop = core.REGISTRY[a.pid]
    if a.replay:
        d = json.load(open(a.replay))
        if prop.setup:
            prop.setup()
        sub = next(s for s in prop.subs if s.name == d["check"])
        import tempfile
        core._scratch = tempfile.mkdtemp(prefix="vp_replay_")
        import shutil
        try:
            lab = core.run_case(sub, d["case"])
            print("replay: holds (%s)" % lab)
            return 0
        except core.Violation as e:
            print("replay: %s" % e)
            print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
            return 1
        finally:
            shutil.rmtree(core._scratch, ignore_errors=True)
    only = a.only.split(",") if a.only else None
    r = core.run_property(a.pid, a.tier, seed, a.jobs, only, a.scale)
    known = []
    for f in core.load_findings():
        if f["property"] == a.pid and f.get("status", "open") == "open":
            known.append(f)
    bad = r["fails"]
    if not only:
        core.write_evidence(a.pid, a.tier, seed, r, len(bad))
    for name, s in r["subs"].items():
        print("%-34s %6d cases, %6d non-trivial distinct %s%s" % (
            name, s["evaluations"], s["nontrivial"], json.dumps(s["classes"], sort_keys=True)[:300],
            " CAPPED" if s["capped"] else ""))
        for k in s.get("skipped", []):
            print("   skipped: %s" % k)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        a.pid, a.tier, seed, r["evals"], len(r["distinct"]), r["wall"]))
    if bad:
        done = set()
        for sub, f in bad:
            if sub in done:
                continue
            done.add(sub)
            cands = sorted((g for s2, g in bad if s2 == sub), key=lambda g: len(json.dumps(g["case"])))
            p = core.save_replay(a.pid, sub, cands[0])
            print("%s: %s" % (sub, cands[0]["message"]))
            print("VIOLATION property=%s replay=%s" % (a.pid, p))
        return 1
    if r["errors"]:
        for e in r["errors"][:3]:
            print(e["sub"], e["error"], file=sys.stderr)
        print("HARNESS-ERROR in %s" % a.pid, file=sys.stderr)
        return 3
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, f["what"]))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit as e:
        rc = 3 if e.code else 0
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
