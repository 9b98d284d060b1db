#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and harness/index.json.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
idx = json.load(open(here + "/harness/index.json"))
na = json.load(open(here + "/docs/not_applicable.json"))
checks, nas = [], []
for p in props:
    hs = [h for h in idx if h["property"] == p["id"]]
    if not hs:
        nas.append({"property": p["id"], "reason": na.get(p["id"], "check not built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash bin/check %s quick" % p["id"],
        "thorough_cmd": "bash bin/check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Bounded: holds for every value of the symbolic inputs of %d harness(es): %s. Trusted: the SSA executor and its models of the Go library (each run replays a sample of path witnesses on the real code and compares), z3." % (len(hs), "; ".join("%s (%s)" % (h["name"], h["bounds"]) for h in hs)),
    })
json.dump({"version": 1, "setup_cmd": "bash bin/build.sh", "checks": checks, "not_applicable": nas,
  "notes": "No hooks in /repo: harnesses are overlaid into the package. bin/check rebuilds everything from /repo's working tree."}, open(here + "/MANIFEST.json", "w"), indent=1)
