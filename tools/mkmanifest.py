#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
SPACE = {"C14": "; the ownership of chunks is read from the stable memory image and compared with what the specification says is needed"}
DIFF = {"C15": "configurations of the storage", "C17": "cold, warm and disturbed caches", "C20": "fresh and aged images",
        "C03": "instances with and without an upgrade (second half of its pipelines)"}
checks = []
import sys
sys.path.insert(0, os.path.join(H, "lib"))
import profiles
for p in props:
    i = p["id"]
    t = "TLA+ specification (spec/FS.tla) checked with TLC; TLC behaviours replayed into the code, state compared after the steps"
    if i in DIFF and i != "C03":
        t = "TLA+ specification (spec/FS.tla) checked with TLC; each TLC behaviour replayed into the code in several configurations, all must conform alike"
    t += "; runs recorded from the code judged by TLC (spec/Trace.tla)"
    if i == "C14":
        t += ", their memory layouts by spec/Space.tla"
    if i in profiles.EPISODES:
        t += "; long episodes by the laws of spec/Bulk.tla"
    note = ("TLC checks the invariants and step properties of the specification on every generated behaviour; the code is compared with the "
            "specification at every step of every replayed behaviour (result, and projected state at the cadence of the configuration). "
            "Assurance is for the behaviours generated (bounded objects, descriptors, grid points per behaviour; exhaustive to a small length "
            "where the pipeline is exhaustive, seeded simulation beyond). Trusts the specification, VectorMemory as stable memory and the harness projection.")
    if i in DIFF:
        note += " Compares " + DIFF[i] + "."
    note += SPACE.get(i, "")
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
m = dict(version=1,
         setup_cmd="cd harness && RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true cargo build --release --offline",
         checks=checks, not_applicable=[],
         notes="No hooks: the public interface (FileSystem, its public storage field, and the stable memory image) exposes the whole abstract state. "
               "Repairs of genuine defects are the fix: commits of /repo, listed in known-findings.json with status fixed.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
