#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
LINK = "property-based testing: proptest-driven structured generation of link inputs, linked by the real binary, judged by a reference model of resolution and layout-independent image oracle, with shrinking"
tech = {
 "L15": "property-based testing: generated and mutated linker scripts and file trees, judged by an independent recogniser and reference model",
 "L16": "property-based testing: generated and mutated command lines over generated directory trees, judged by a reference interpreter of the options",
 "L17": "fault injection driven by property-based testing: failing inputs, file-size limits (error or death) at generated points, full stdout, earlier outputs in place",
 "L18": "structure-aware mutation fuzzing of objects, archives and libraries with a reject-or-well-formed oracle",
 "L19": "property-based testing at the limits of each field, two-step generation against the psABI's range rules",
 "L20": "differential testing: generated C and C++ programs linked by this linker and by the system linker, compared by behaviour",
 "L25": "property-based testing: one generated fault of a listed kind in an otherwise valid generated link, which has to be rejected",
 "L26": "property-based testing: generated links among bystander files with generated output paths, judged by comparing the whole tree before and after",
 "L24": "metamorphic property-based testing: generated links repeated and compared byte for byte",
}
done = set(os.environ.get("DONE", " ".join(ids)).split())
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "Needs no hooks in /repo: every check drives the real binary, built from /repo's working tree, as an unprivileged user in scratch directories. `./check.sh replay FILE` re-runs a replay file, `./check.sh dump FILE DIR` writes its inputs out."}
for i in ids:
    if i not in done:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i,
      "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
      "evidence_file": "evidence/%s.json" % i,
      "technique": tech.get(i, LINK), "level": "exploration",
      "level_note": "Random search over generated cases against an explicit oracle, reproducible from VERIF_SEED; no exhaustiveness claimed. Trusts the harness's file writers, ELF reader and reference model (and, for L20, the installed compilers, system linker and loader)."})
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(d, "MANIFEST.json"), "a").write("\n")
