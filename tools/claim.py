"""claim.py ID technique note: add or change a check's entry in checks.json."""
import json, pathlib, sys
p = pathlib.Path(__file__).parent / "checks.json"
d = json.loads(p.read_text())
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
p.write_text(json.dumps(dict(sorted(d.items())), indent=1))
