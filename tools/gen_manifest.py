"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, pathlib
root = pathlib.Path(__file__).parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
notes = json.loads((root / "tools" / "checks.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / "vf" / "checks" / f"{i.lower()}.py").exists() and i in notes:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"env VERIF_TIER=thorough bash run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=notes[i][0], level="model_checking", level_note=notes[i][1]))
    else:
        na.append(dict(property=i, reason=notes.get("NA", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="TLA+ specifications in spec/, checked with TLC; conformance drivers in vf/ (run with /opt/venv/bin/python against /repo/src). No hooks in /repo.")
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "unclaimed")
