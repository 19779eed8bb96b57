#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and lib/jobs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import jobs
F = dict(b="src/builders/binned_sah.rs", l="src/builders/locb.rs", s="src/builders/spatial_sah.rs", m="src/builders/mod.rs", lib="src/lib.rs", bvh="src/bvh.rs", node="src/bvh_node.rs", mnode="src/mbvh_node.rs", mbvh="src/mbvh.rs", it="src/iter.rs", aabb="src/aabb.rs", ray="src/ray.rs", mor="src/morton.rs", u="src/utils.rs", ffi="rtbvh_ffi/src/lib.rs")
REPOFILES = None

def E(id, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=jobs.PROPS[id]["title"] if id in jobs.PROPS else NA[id][0], statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))

NA = {}
from props_text import ENTRIES, NOT_APPLICABLE
for e in NOT_APPLICABLE: NA[e["id"]] = (e["title"], e["reason"])
lines = []
for e in ENTRIES:
  if e['id'] in jobs.PROPS or e['id'] in NA: lines.append(E(**e))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for l in sorted(lines, key=lambda l: l["id"]): f.write(json.dumps(l) + "\n")
checks = []
for p in sorted(jobs.PROPS):
    P = jobs.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
        technique="symbolic execution of the LLVM IR rustc makes from /repo, path conditions and assertions decided by z3 (floats bit-exact or by sound order lemmas)",
        level="model_checking",
        level_note="Bounded: " + P["bounds"] + ". Outside: " + P["outside"] + ". Paths not finished within the time cap are listed in the evidence as jobs_partial; a violation is reported only when its inputs fail in the native build of the real code."))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[dict(property=k, reason=v[1]) for k, v in NA.items()],
    hooks=dict(guard="cfg rtbvh_verif", enable='RUSTFLAGS="--cfg rtbvh_verif"', source_commits=["f0263eaeefdc857ed404a6e17a52437badd5ae9f", "2652e6ed3c07ca9d43507edb60e09f57bc138bfa"]),
    notes="The one hook makes the spawn threshold of the parallel builders a variable; everything else is reached through the public API, the FFI crate's source is included by path. fix: commits are recorded in known-findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
