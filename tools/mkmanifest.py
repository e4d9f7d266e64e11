#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import models
import run
import wrapcheck

NOTES = {
    "cache": "TLC checks the property's TLA+ formula (spec/LRUProps.tla) on every transition of small models of the "
             "specification exhaustively; the transitions are toured on the real templates, and these and random "
             "histories are validated by TLC as behaviours of the specification (spec/Trace.tla). Beyond the models' "
             "constants the assurance is that of the recorded histories. Trusts the compiler, the sanitizers, TLC, "
             "and the recording driver.",
    "wrap": "TLC checks the property exhaustively on small models of spec/Wrap.tla; its transitions are toured on "
            "real wrappers, and these and random call histories are validated by TLC (spec/WrapTrace.tla). Beyond the "
            "models' constants the assurance is that of the recorded histories.",
}

NOTES["count"] = NOTES["cache"] + (" Besides, basic blocks executed are counted and validated against spec/Cost.tla in "
                                   "caches of up to some thousand entries; its constants leave slack of about three.")
NOTES["threads"] = NOTES["cache"] + (" spec/Threads.tla shows that operations on different caches commute; recordings are "
                                     "made in eight threads under ThreadSanitizer, which reports unordered accesses. "
                                     "Schedules are those that happen.")

NOTES["relay"] = NOTES["cache"] + " Each operation of a history is done by one of three threads, the others waiting."

checks, missing = [], []
for line in open(os.path.join(run.ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    kind = "cache" if p in models.PROPERTIES else "wrap" if p in wrapcheck.PROPERTIES else None
    if kind is None:
        missing.append({"property": p, "reason": "the specification of the wrappers is still being written"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
        "technique": "TLA+ specification model checked with TLC; model tours and random histories of the real code "
                     "validated against it with TLC",
        "level": "model_checking",
        "level_note": NOTES[{"C29": "count", "C32": "threads", "C33": "relay"}.get(p, kind)],
    })
doc = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing,
       "notes": "No hooks in /repo: the public interface exposes the abstract state. Known and fixed findings are in "
                "known-findings.txt."}
with open(os.path.join(run.ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
