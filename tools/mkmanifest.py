#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOT = {}  # id -> reason
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "10afe0c.."], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
note = ("TLC computes the behaviour the TLA+ specification allows for every enumerated or generated scenario, checking the "
        "specification's invariants on the way, and the real yot binary is run on each; outcomes (documents, text, files, "
        "exit status, standard output) must agree. Assurance is bounded by the scenarios: small enumerated models plus seeded "
        "random scenarios. Trusts gopkg.in/yaml.v3 for reading and laying out YAML, and the specification.")
extra = {
 "C11": " In addition the runs use the race detector, and schedules are forced through gates at the hooks.",
 "C18": " Templates are specified for literals, references, defaults, conditionals, ranges and a few functions, not for all of Go's template language and Sprig.",
 "C20": " Filters that compare unusual numbers (hexadecimal, infinite, with exponent) are left out: a dependency panics on some.",
}
m = {"version": 1, "setup_cmd": "cd harness && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o /dev/null .",
     "hooks": {"guard": "verif", "enable": "go build -tags verif ./cmd/yot", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in NOT:
        m["not_applicable"].append({"property": p["id"], "reason": NOT[p["id"]]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
        "technique": "TLA+ specification checked with TLC, its behaviours compared with runs of the real binary",
        "level": "model_checking", "level_note": note + extra.get(p["id"], "")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), hooks)
