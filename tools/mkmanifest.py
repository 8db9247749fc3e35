#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; conformance of the crate by replaying TLC's behaviours"
NOTE = {
 "C01": "Exhaustive on the specification's side for every parser configuration up to 1 open bracket (thorough: 2) times every kind of token, and for every listed word in every listed slot; random documents beyond that.",
 "C02": "As C01, comparing whole trees without positions; random documents up to 160 terminals.",
 "C05": "Every sequence of up to 2 (thorough: 4) ignored lexemes in 19 places, then random documents laid out in six ways.",
 "C06": "Every text of up to 2 to 5 letters (thorough: one more) over seven alphabets, every interesting character in ten places, then random texts.",
 "C07": "Every number-like text of up to 4 to 5 letters (thorough: more), boundary values, and random numbers in every place a value can stand. The oracle for the nearest binary64 value of the literal is the host's strtod; range limits are decided in the specification.",
 "C08": "Every string body over small alphabets, every \\u code unit, in every place a string can stand.",
 "C09": "Every block string body over small alphabets, then random ones, in every place a string can stand.",
}
DEFAULT = "Exhaustive within the bounds listed in the evidence file's `enumerated`, seeded random behaviours beyond; expected outcomes are all computed by TLC from the specification. Trusted: the specification's reading of the property, TLC, and the harness's rendering of the public AST."
checks = [{"property": p["id"], "quick_cmd": "bin/check %s --quick" % p["id"], "thorough_cmd": "bin/check %s --thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking",
           "level_note": (NOTE[p["id"]] + " " if p["id"] in NOTE else "") + DEFAULT} for p in P]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the crate's public API only. Known and fixed defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
