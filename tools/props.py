#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: tools/props.py writes both."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), claimed=True,
         note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, claimed=claimed, note=note, na=na))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOTE = ("Every obligation generated from /repo's current source is discharged by the solvers on every run, function by "
        "function, for all inputs and iterations; floats are treated as reals, ints as mathematical integers. ")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b} for a, b in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/govc check -property %s -tier quick" % p["id"],
            "thorough_cmd": "bin/govc check -property %s -tier thorough" % p["id"],
            "technique": "contract-based deductive verification of the Go source (symbolic execution to verification conditions, z3/cvc5)",
            "level": "proof",
            "level_note": NOTE + p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1,
     "setup_cmd": "cd govc && GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/govc .",
     "hooks": {"guard": "none", "enable": "No hooks: contracts live in /verif/contracts and are joined to the package by overlay on every run.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "tools/props.py writes this file and properties.jsonl from tools/props_data.py. Commits in /repo whose message starts with fix: repair genuine defects; they are listed in known_findings.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
