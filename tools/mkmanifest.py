#!/usr/bin/env python3
"""Writes MANIFEST.json: claims the properties given in NOTES that the harness
registers (a check of every id below), lists the others as not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts the Go toolchain, the harness's own oracle and, for other seeds and sizes, extrapolation; see DESIGN.md."
# id: (technique, level note)
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash bin/setup",
 "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks link the unmodified packages, build the unmodified programs and observe their interfaces, messages, processes and, for the web front-end, add one file by overlay", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "Every check builds /verif/harness and the programs it runs from /repo's working tree; VERIF_SEED selects all random choices. See DESIGN.md.",
}
for p in props:
    if p in NOTES and NOTES[p]:
        t, note = NOTES[p]
        m["checks"].append({
            "property": p, "quick_cmd": f"bash bin/check {p} quick", "thorough_cmd": f"bash bin/check {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": note + " " + TRUST})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
