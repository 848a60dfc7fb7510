#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl, MANIFEST.json and checks/config.json.

Run by hand after editing an entry (python3 meta.py); no check runs it.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
I = "include/ffcl/"
ASAN = [{"name": "asan"}]
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mechanism, observe, rule, assumptions=(), variants=None, note=""):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                      observe=observe, rule=rule, assumptions=list(assumptions), variants=variants or ASAN, note=note))


exec(open(os.path.join(HERE, "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["pid"]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [I + x for x in p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

# how many times the base number of cases the quick tier runs: set so that the search of each check takes about 40 s here
QUICK_SCALE = dict(P01=4, P02=5, P03=7, P04=10, P05=3, P06=2, P07=2, P08=12, P09=1.2, P10=1.7, P11=10, P12=1.5, P13=7, P14=6, P15=1.4, P16=5,
                   P17=3, P18=7, P19=6, P20=7, P21=12, P22=6, P23=4, P24=4, P25=3.5, P26=8, P27=2.5, P28=7)
config, checks = {}, []
for p in PROPS:
    config[p["pid"]] = {"rule": p["rule"], "assumptions": p["assumptions"], "variants": p["variants"],
                        "quick_scale": QUICK_SCALE.get(p["pid"], 1)}
    checks.append({
        "property": p["pid"],
        "quick_cmd": "python3 run.py %s quick" % p["pid"],
        "thorough_cmd": "python3 run.py %s thorough" % p["pid"],
        "evidence_file": "evidence/%s.json" % p["pid"],
        "technique": "property-based testing: tape-based generators with shrinking against an explicit oracle, under ASan/UBSan",
        "level": "exploration",
        "level_note": ("Held on every generated case (counts in the evidence file); not a proof. " + p["note"]
                       + " Trusts the reference oracle in checks/%s.cpp and g++ 13." % p["pid"]),
    })
json.dump(config, open(os.path.join(HERE, "checks", "config.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every check drives the public headers. run.py <id> replay <file> re-runs a replay file.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
