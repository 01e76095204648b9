#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools", "levels.json")))
src = "".join(open(f).read() for f in glob.glob(os.path.join(root, "harness", "*.go")))
notes = {k: v for k, v in notes.items() if re.search(r'ID:\s+"%s"' % k, src)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in notes:
        na.append({"property": i, "reason": "no check yet"})
        continue
    tech, note = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "Property-based testing with a recorded-choice engine (harness/engine.go): every case is a pure function of VERIF_SEED, a failing case is shrunk and written to replays/ and can be run again with ./run.sh --replay <file>. known_findings.txt lists known findings and repaired defects.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
