#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(here, "claimed.json")))
NA = {
 "C22": "pure function of its input: no schedule, clock, fault or interleaving takes part (payload round trips inside runs are checked under C10)",
 "C23": "pure arithmetic on one value: no schedule, clock, fault or interleaving takes part (bucket choice inside runs is checked under C03)",
 "C24": "the tree contains only a stub of the certificate code (metatron_sample.cc); there is no TLS peer or certificate logic here to simulate",
}
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick",
            thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "deterministic simulation of the whole daemon with fault injection, seeded schedule search"),
            level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet (work in progress)")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "claimed")
