"""Check bookkeeping: tiers, seeds, verdicts, known findings and evidence."""
from __future__ import annotations

import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from pathlib import Path
from typing import Any

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAY = EVIDENCE / "replay"
KNOWN = ROOT / "known_findings.json"


def jsonable(x: Any) -> Any:
    return json.loads(json.dumps(x, default=repr))


class Check:
    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + int(pid[1:]))
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list[Any] = []
        self.coverage: dict[str, Any] = {}
        self.counts: dict[str, int] = {}
        self.assumptions: list[str] = []
        self.found: dict[str, dict] = {}
        self.exhaustive = True

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def pick(self, quick: Any, thorough: Any) -> Any:
        return thorough if self.thorough else quick

    def spec(self, result, *, what: str | None = None) -> None:
        """Account for a model checking run and fail if the *specification* breaks a property."""
        self.states += result.distinct
        self.transitions += result.generated
        if what:
            self.coverage.setdefault("model_runs", {})[what] = {
                "distinct_states": result.distinct, "states_generated": result.generated,
                "depth": result.depth}
        if not result.ok:
            raise RuntimeError(f"the specification violates {result.violated}:\n{result.output[-3000:]}")

    def count(self, what: str, n: int = 1) -> None:
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, x: Any, limit: int = 4) -> None:
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def violation(self, key: str, detail: Any) -> None:
        """Record a violation. `key` identifies the failing input/history (used to dedupe)."""
        self.found.setdefault(key, {"property": self.pid, "key": key, "detail": jsonable(detail)})

    def finish(self) -> int:
        known = json.loads(KNOWN.read_text()) if KNOWN.exists() else {"findings": []}
        listed = {k["key"]: k for k in known.get("findings", []) if k["property"] == self.pid}
        fresh = [v for k, v in self.found.items() if k not in listed]
        for k, entry in listed.items():
            if k in self.found:
                print(f"KNOWN-FINDING: property={self.pid} {entry['what']}")
        REPLAY.mkdir(parents=True, exist_ok=True)
        for old in REPLAY.glob(f"{self.pid}-*.json"):
            old.unlink()
        for i, v in enumerate(fresh[:5]):
            path = REPLAY / f"{self.pid}-{i}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"VIOLATION property={self.pid} replay={path.relative_to(ROOT)}")
            print("  " + json.dumps(v["detail"])[:1500])
        if len(fresh) > 5:
            print(f"  ... and {len(fresh) - 5} more")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "exhaustive": self.exhaustive,
            "cases": self.counts,
            **self.coverage,
        }
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": "model_checking", "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 2),
            "violations": len(fresh)}, indent=1))
        print(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} "
              f"cases={self.counts} violations={len(fresh)} wall={time.time() - self.start:.1f}s")
        return 1 if fresh else 0


def from_arti(e: BaseException) -> bool:
    """Whether the exception came out of the code under test."""
    tb = e.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        # (models of the code under test are constructed by pydantic)
        if ("/arti/" in name or "/pydantic/" in name) and "/verif/" not in name:
            return True
        tb = tb.tb_next
    return False


def main(pid: str, fn) -> int:
    check = Check(pid)
    try:
        fn(check)
    except Exception as e:
        if from_arti(e):
            # The code under test refused something every correct version accepts.
            traceback.print_exc()
            check.violation(f"unexpected {type(e).__name__}", {
                "unexpected_error": repr(e), "traceback": traceback.format_exc()[-3000:]})
        elif not check.found:
            raise
        else:  # pragma: no cover
            traceback.print_exc()
    return check.finish()


class Scratch:
    """A scratch directory, removed at the end."""

    def __enter__(self) -> Path:
        self.dir = Path(tempfile.mkdtemp(prefix="vf-"))
        return self.dir

    def __exit__(self, *a) -> None:
        shutil.rmtree(self.dir, ignore_errors=True)
