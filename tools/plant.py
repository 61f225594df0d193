"""plant.py FILE [--checks A,B]: make /verif/seeded/<id> from a description and confirm it, in a scratch clone of /repo.

FILE holds Python assignments: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...], DEMO.
"""
import json, os, pathlib, subprocess, sys, tempfile

root = pathlib.Path(__file__).parent.parent
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    b = {}
    exec(pathlib.Path(sys.argv[1]).read_text(), b)
    checks = sys.argv[3].split(",") if len(sys.argv) > 3 else [b["PROPERTY"]]
    checks = [c for c in checks if c != "-"]
    d = root / "seeded" / b["ID"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(b["DEMO"])
    (d / "demo.sh").write_text('#!/bin/bash\n# Exits 0 if the property holds on this input.\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"\n'
                               'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, indent=1) + "\n")
    with tempfile.TemporaryDirectory(prefix="plant") as t:
        repo = pathlib.Path(t) / "repo"
        sh("git", "clone", "-q", "/repo", str(repo))
        ok = sh("bash", str(d / "demo.sh"), cwd=repo)
        if ok.returncode:
            print(b["ID"], "DEMO FAILS ON THE UNCHANGED TREE:", ok.stdout[-500:], ok.stderr[-1500:])
            return 1
        for path, old, new in b["EDITS"]:
            f = repo / path
            s = f.read_text()
            assert s.count(old) == 1, (path, s.count(old), old)
            f.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(sh("git", "-C", str(repo), "diff").stdout)
        env = {**os.environ, "PYTHONPATH": str(repo / "src"), "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SEED": "1"}
        r = sh(PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "--timeout=300", cwd=repo, env=env)
        print(b["ID"], "tests:", r.returncode, " ".join(r.stdout.split()[-8:]))
        bad = sh("bash", str(d / "demo.sh"), cwd=repo)
        print("  demo with the patch:", bad.returncode, (bad.stderr or bad.stdout).strip().splitlines()[-1:])
        for c in checks:
            r = sh("bash", "run.sh", c, cwd=root, env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print("  check", c, "exit", r.returncode, f"{len(v)} violations", r.stdout.splitlines()[-1][-60:] if r.stdout else r.stderr[-300:], flush=True)


sys.exit(main())
