"""Evaluating cases in other processes, with other hash seeds: python -m vf.elsewhere <module> <function> < cases."""
import importlib
import json
import os
import subprocess
import sys


def main() -> None:
    from vf import tables
    fn = getattr(importlib.import_module(sys.argv[1]), sys.argv[2])
    got = [tables._safe(fn, c) for c in json.load(sys.stdin)]
    sys.stdout.write("@RESULT" + json.dumps([f"unexpected {g.name}" if isinstance(g, tables.Broken) else g for g in got]))


def compare(check, module: str, function: str, cases: list, here: list, *, what: str, seeds=("1", "4242")) -> None:
    """fn must give the same answers in other processes."""
    from vf import tables
    from vf.core import ROOT
    here = [f"unexpected {g.name}" if isinstance(g, tables.Broken) else g for g in here]
    procs = []
    for seed in seeds:
        procs.append(subprocess.Popen([sys.executable, "-m", "vf.elsewhere", module, function], cwd=ROOT,
                                      env={**os.environ, "PYTHONHASHSEED": seed}, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, text=True))
    for p in procs:
        out, _ = p.communicate(json.dumps(cases))
        if p.returncode != 0 or "@RESULT" not in out:
            raise RuntimeError("helper process failed")
        for c, a, b in zip(cases, here, json.loads(out.split("@RESULT", 1)[1])):
            if json.loads(json.dumps(a)) != b:
                check.violation(f"{what}: depends on the process", {"case": c, "here": a, "elsewhere": b})
        check.traces += len(cases)
    check.count(f"{what}_other_processes", len(seeds) * len(cases))


if __name__ == "__main__":
    main()
