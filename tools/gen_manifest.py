#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "C17": "computational indistinguishability and closeness of sampled noise to a discrete Gaussian are statements about probability distributions against polynomial-time adversaries: no assertion over the inputs of the code for an SMT solver to decide",
    "C19": "the behaviour lives in gRPC, crypto/tls and net/http, whose event loops, reflection and I/O cannot be encoded; a model of them would decide the model, not the code",
}
NA.update(json.load(open(os.path.join(root, "tools", "na.json"))) if os.path.exists(os.path.join(root, "tools", "na.json")) else {})
CLAIMED = json.load(open(os.path.join(root, "tools", "claimed.json")))
TECH = "bounded symbolic execution of the real Go code (SSA from the current source) with SMT solving (z3/cvc5); counterexamples replayed natively"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": CLAIMED[i].get("technique", TECH), "level": "other", "level_note": CLAIMED[i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
