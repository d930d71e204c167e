#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, D = "src/pyqcstrc/ico2/", "src/pyqcstrc/dode2/"
PROPS = []
NA = []


def both(*names):
    return [p + n for n in names for p in (I, D)]


def prop(pid, title, statement, text, why, files, mech, technique, note, over=("inputs",), observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = list(observe)
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                      why_tests_cant=why, anchors=a, _t=technique, _n=note))


def na(pid, reason):
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(HERE, "tools", "properties_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

nas = {x["property"] for x in NA}
man = dict(version=1, setup_cmd="./setup.sh",
           checks=[dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                        thorough_cmd="./check %s --tier thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="exploration",
                        level_note=p["_n"]) for p in PROPS if p["id"] not in nas],
           not_applicable=NA,
           notes="Every check imports the library from /repo/src (or builds /repo/src_cython into a scratch folder) on each run; "
                 "no hooks in /repo. Replays: ./check <id> --replay <file>.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
