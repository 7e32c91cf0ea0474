#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of what is claimed."""
import json, os, importlib.machinery, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
src = open(os.path.join(HERE, "check")).read()
ns = {}
exec(src[src.index("BINS ="):src.index("BIN_OF =")], ns)
exec(src[src.index("LEVEL ="):src.index("def run(")], ns)
built = {b for b in ns["BINS"] if os.path.exists(os.path.join(HERE, "harness/src/bin", b + ".rs"))}
claimed = {p for b in built for p in ns["BINS"][b]}

EXPL = ("explicit-state model checking of the real crate: exhaustive bounded exploration of operation histories "
        "in lockstep with a reference model, checked in every reached state")
TECH = {
    "C13": "exhaustive enumeration of pairs of reachable tree states (products of bounded histories) against a brute-force join model",
    "C20": "exhaustive enumeration of a bounded input space on the real code against an independent oracle",
    "C21": "exhaustive enumeration of a bounded input space on the real code against an independent oracle",
    "C15": "exhaustive enumeration of a parameter grid, plus lockstep exploration of histories under many parameters against one model",
    "C17": "exhaustive exploration of operation histories with a live-instance registry, every abandonment point enumerated",
    "C24": "exhaustive enumeration of bulk loads of every size up to a bound with a counting allocator",
    "C27": "exhaustive enumeration of tree sizes, constructions and query positions on the real code with a counting number type and counting elements",
    "C25": "exhaustive enumeration of all interleavings of concurrent read-only queries (single thread and controlled threads)",
    "C26": "exhaustive fault enumeration: a panic injected at every callback invocation of every operation in every explored state",
}
NOTE = {
    "model_checking": "Exhaustive within the bounds stated in the evidence (all histories/states of those scopes, executed on the real "
                      "code and compared with the reference model); nothing is claimed beyond the bounds. Trusts the reference model and rustc.",
    "exploration": "Every case of the stated bounded space is executed on the real code and compared with an independent oracle; "
                   "nothing is claimed outside the space.",
    "fault_enumeration": "Every callback index of every operation in the explored states is made to panic; nothing beyond those bounds is claimed.",
}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    lvl = ns["LEVEL"].get(i, "model_checking")
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, EXPL), "level": lvl, "level_note": NOTE[lvl]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check is registered for it yet")} for p in props if p["id"] not in claimed]
json.dump({"version": 1, "setup_cmd": "./check build",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the checks use the public API only. Commits in /repo are fix: commits (see known_findings.txt)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
