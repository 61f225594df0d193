"""Running TLC and reading what it prints."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The checker itself failed (not a verdict)."""


@dataclass
class Result:
    ok: bool
    distinct: int = 0
    generated: int = 0
    depth: int = 0
    violated: str | None = None
    lines: dict[str, list] = field(default_factory=dict)
    output: str = ""

    def get(self, tag: str) -> list:
        return self.lines.get(tag, [])


def run(
    module: str,
    cfg: str | None = None,
    *,
    env: dict[str, str] | None = None,
    workers: int = 4,
    heap: str = "4g",
    simulate: int | None = None,
    depth: int = 100,
    seed: int = 1,
    timeout: int = 800,
    cfg_text: str | None = None,
    deadlock: bool = False,
    tags: tuple[str, ...] | None = None,
) -> Result:
    """Run TLC on spec/<module>.tla. Lines printed as "@TAG{json}" are collected per tag."""
    work = Path(tempfile.mkdtemp(prefix="tlc-"))
    try:
        if cfg_text is not None:
            cfg_path = work / "run.cfg"
            cfg_path.write_text(cfg_text)
        else:
            cfg_path = SPEC / (cfg or f"{module}.cfg")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", str(cfg_path), "-metadir", str(work / "meta"), "-workers", str(workers),
               "-noGenerateSpecTE", "-fp", "0"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
        cmd.append(f"{module}.tla")
        res = Result(ok=False)
        other: list[str] = []
        proc = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                text=True, env={**os.environ, **(env or {})})
        import threading
        killer = threading.Timer(timeout, proc.kill)
        killer.start()
        try:
            assert proc.stdout is not None
            for line in proc.stdout:
                if line.startswith('"@'):
                    text = json.loads(line)
                    m = re.match(r"@([A-Za-z]+)", text)
                    assert m
                    if tags is None or m.group(1) in tags:
                        res.lines.setdefault(m.group(1), []).append(json.loads(text[m.end():]))
                else:
                    other.append(line)
            rc = proc.wait()
        finally:
            killer.cancel()
        out = res.output = "".join(other)
        if m := re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            res.generated, res.distinct = (int(g.replace(",", "")) for g in m.groups())
        elif m := re.search(r"number of states generated: ([\d,]+)", out, re.I):
            res.generated = res.distinct = int(m.group(1).replace(",", ""))
        if m := re.search(r"depth of the complete state graph search is (\d+)", out):
            res.depth = int(m.group(1))
        if m := re.search(r"Error: Invariant (\w+) is violated", out):
            res.violated = m.group(1)
        elif m := re.search(r"Error: (?:Action|Temporal) propert(?:y|ies) (\w+)", out):
            res.violated = m.group(1)
        elif "Assumption" in out and "is false" in out:
            res.violated = "ASSUME"
        elif "Deadlock reached" in out:
            res.violated = "Deadlock"
        res.ok = rc == 0 and res.violated is None
        if not res.ok and res.violated is None:
            raise TLCError(f"TLC failed on {module} (rc={rc}):\n" + out[-4000:])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
