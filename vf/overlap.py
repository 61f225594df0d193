"""Builds that overlap: each runs in its own thread, but only one of them at a time, and which one is decided by a plan."""
from __future__ import annotations

import json
import os
import random
import sys
import tempfile
import threading
import traceback
from typing import Any

from vf import engine, tlc
from vf.core import Check, from_arti

HERE = threading.local()
_HOOKED: list[int] = []
EVENTS = ("open", "os.rename", "os.remove", "os.link", "os.truncate", "os.listdir", "os.scandir", "shutil.move")


def watch_files():
    """Builders are also put aside at every use of the file system below the world's directory."""
    if os.getpid() in _HOOKED:
        return
    _HOOKED.append(os.getpid())

    def hook(event, args):
        b = getattr(HERE, "builder", None)
        if b is not None and event in EVENTS and args and isinstance(args[0], (str, os.PathLike)) and str(args[0]).startswith(b.dir):
            b.gate(event)

    sys.addaudithook(hook)


class Lost(BaseException):
    pass


class Builder(threading.Thread):
    def __init__(self, w: engine.World, n: int, be: int, token: str, snap, ver: dict, executor=None):
        super().__init__(daemon=True)
        self.n, self.be, self.token, self.snap, self.ver, self.executor, self.dir = n, be, token, snap, dict(ver), executor, str(w.dir)
        self.w = w
        self.log = engine.Log()
        self.log.gate = self.gate
        self.log.pad = w.pad
        self.told = 0
        self.resume, self.paused = threading.Semaphore(0), threading.Semaphore(0)
        self.stop = self.lost = False
        self.over: dict | None = None
        self.error: BaseException | None = None
        self.gates = 0

    def run(self):
        HERE.builder = self
        self.resume.acquire()
        try:
            if self.stop:
                raise Lost
            r = self.snap.build(self.executor)
            self.over = {"res": "ok", "rid": str(r.id), "error": ""}
        except Lost:
            self.over = {"res": "lost", "rid": "", "error": ""}
        except Exception as e:
            self.error = e
            self.over = {"res": "err", "rid": "", "error": f"{type(e).__name__}: {e}"[:300] + traceback.format_exc()[-700:]}
        finally:
            HERE.builder = None
            self.paused.release()

    def gate(self, kind: str):
        if self.stop:       # on the way out: no more stops
            return
        self.gates += 1
        self.paused.release()
        self.resume.acquire()
        if self.stop:
            raise Lost

    def step(self):
        """Run to the next gate (or to the end)."""
        old = engine.LOG, engine._CACHE.get("version_of"), engine._CACHE.get("outs_of")
        engine.LOG = self.log
        engine._CACHE["version_of"] = lambda c: self.ver[c]
        engine._CACHE["outs_of"] = lambda c: 0
        try:
            self.resume.release()
            if not self.paused.acquire(timeout=60):
                raise engine.Hung(f"builder {self.n}")
        finally:
            engine.LOG, engine._CACHE["version_of"], engine._CACHE["outs_of"] = old
        for e in self.log.execs[self.told:]:
            self.w.emit(op="exec", b=self.n, cls=e["cls"], v=e["v"], args=e["args"])
        self.told = len(self.log.execs)


def run_plan(prog: dict, plan: list[dict], style: dict) -> dict:
    watch_files()
    engine.artifact_classes()
    w = engine.World(prog, style)
    sides: dict[int, tuple] = {}
    builders: dict[int, Builder] = {}
    started: list[Builder] = []

    def side(be):
        if be not in sides:
            sides[be] = (engine.spy_backend(), {}, {}, {})
        w.backend, w.graphs, w.snaps, w.tags = sides[be]

    def reads(be, token):
        side(be)
        at = len(w.events)
        w.read_all(token, how=w.rng.choice([0, 0, 1, 2]))
        for e in w.events[at:]:
            e["be"] = be

    def ended(b):
        if b.over is not None and b.over["res"] != "lost" and not b.lost:
            w.emit(op="end", b=b.n, be=b.be, id=b.token, **b.over)
            b.lost = True    # told
            reads(b.be, b.token)

    try:
        for op in plan:
            o = op["op"]
            if o == "raw":
                if op["k"] not in w.rawstate[op["a"]]:
                    w.set_raw(op["a"], op["k"], op["v"])
            elif o == "ver":
                w.set_ver(op["cls"], op["v"])
            elif o == "start":
                side(op["be"])
                token = w.snap()
                if token is None:
                    break
                executor = None
                if op.get("executor"):
                    from arti.executors.local import LocalExecutor
                    executor = engine._CACHE.setdefault("executor", LocalExecutor())
                b = builders[op["b"]] = Builder(w, op["b"], op["be"], token, w.snaps[token][0], w.ver, executor)
                started.append(b)
                w.emit(op="start", b=op["b"], be=op["be"], id=token)
                b.start()
            elif o in ("step", "finish"):
                b = builders[op["b"]]
                n = op.get("n", 10**6)
                while b.over is None and not b.lost and n > 0:
                    b.step()
                    n -= 1
                ended(b)
            elif o == "stop":      # an interrupt
                b = builders[op["b"]]
                if b.over is None and not b.lost:
                    b.lost = b.stop = True
                    b.step()
            elif o == "kill":      # never heard of again
                builders[op["b"]].lost = True
            elif o == "reads":
                if started:
                    b = started[op["i"] % len(started)]
                    reads(b.be, b.token)
            else:
                raise AssertionError(o)
        for b in started:
            while b.over is None and not b.lost:
                b.step()
            ended(b)
        for b in started:
            reads(b.be, b.token)
    finally:
        for b in started:
            if b.over is None:
                b.stop = True
                b.resume.release()
            b.join(30)
        w.close()
    tr = w.trace()
    tr["hist"] = plan
    tr["gates"] = max((b.gates for b in started), default=0)
    return tr


def _one(item):
    prog, plan, style = item
    try:
        return "ok", run_plan(prog, plan, style)
    except Exception as e:
        if not from_arti(e):
            raise
        return "bad", {"key": f"unexpected {type(e).__name__}", "error": repr(e), "program": prog, "history": plan, "style": style, "traceback": traceback.format_exc()[-2500:]}


def from_schedule(x: dict, rng: random.Random, stretch: int = 1) -> list[dict]:
    """A schedule of Overlap as a plan. A step of the specification is `stretch` steps of the code."""
    prog = x["prog"]
    plan: list[dict] = []
    for a, A in enumerate(prog["arts"], 1):
        if A["raw"]:
            for k in ([0] if not A["part"] else [1] if x["second"] == "raw" else [1, 2]):
                plan.append({"op": "raw", "a": a, "k": k, "v": max(1, k)})
    begun = set()
    for b in x["sched"]:
        if b < 0:
            plan.append({"op": rng.choice(["stop", "kill"]), "b": -b})
            continue
        if b not in begun:
            begun.add(b)
            if b == 2 and x["second"] == "raw":
                plan += [{"op": "raw", "a": a, "k": 2, "v": 2} for a, A in enumerate(prog["arts"], 1) if A["part"] and A["raw"]]
            if b == 2 and x["second"] == "ver":
                plan.append({"op": "ver", "cls": min(p["cls"] for p in prog["prods"]), "v": 2})
            plan.append({"op": "start", "b": b, "be": 1 if x["share"] else b, "executor": rng.random() < 0.3})
        elif plan[-1]["op"] == "step" and plan[-1]["b"] == b:
            plan[-1]["n"] += stretch
        else:
            plan.append({"op": "step", "b": b, "n": stretch})
    # Whatever was lost is made up for
    plan += [{"op": "finish", "b": b} for b in sorted(begun)]
    if any(b < 0 for b in x["sched"]):
        plan += [{"op": "start", "b": 3, "be": rng.choice([1, 3])}, {"op": "finish", "b": 3}]
    return plan


def random_plan(rng: random.Random, prog: dict, *, builders: int = 3, switches: int = 8, losses: float = 0.15) -> list[dict]:
    raws = [n for n, a in enumerate(prog["arts"], 1) if a["raw"]]
    parts = [n for n in raws if prog["arts"][n - 1]["part"]]
    plan: list[dict] = []
    for n in raws:
        for k in (rng.sample([1, 2, 3], rng.randint(1, 2)) if n in parts else [0]):
            plan.append({"op": "raw", "a": n, "k": k, "v": rng.randint(1, 3)})
    if rng.random() < 0.3:
        plan += [{"op": "start", "b": 9, "be": 1}, {"op": "finish", "b": 9}]
    bes = rng.choice([[1], [1], [1, 2], [1, 2, 3]])
    live: list[int] = []
    new = 1
    for _ in range(switches):
        if new <= builders and (not live or rng.random() < 0.45):
            if rng.random() < 0.3 and parts:
                plan.append({"op": "raw", "a": rng.choice(parts), "k": rng.randint(1, 4), "v": rng.randint(1, 3)})
            if rng.random() < 0.3 and prog["prods"]:
                plan.append({"op": "ver", "cls": rng.choice(prog["prods"])["cls"], "v": rng.randint(1, 2)})
            plan.append({"op": "start", "b": new, "be": rng.choice(bes), "executor": rng.random() < 0.3})
            live.append(new)
            new += 1
        if not live:
            break
        b = rng.choice(live)
        if rng.random() < losses / 2:
            plan.append({"op": rng.choice(["stop", "kill"]), "b": b})
            live.remove(b)
            continue
        plan.append({"op": "finish", "b": b} if rng.random() < 0.15 else {"op": "step", "b": b, "n": rng.choice([1, 1, 2, 3, 5, 8, 13, 21])})
        if rng.random() < 0.2:
            plan.append({"op": "reads", "i": rng.randint(0, 9)})
    return plan


def judge(check: Check, traces: list[dict], *, what: str) -> None:
    per = 1500
    for at in range(0, len(traces), per):
        part = traces[at:at + per]
        with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="vf-trace-") as f:
            json.dump([{"prog": t["prog"], "events": t["events"]} for t in part], f)
            f.flush()
            r = tlc.run("OverlapTrace", env={"TRACE": f.name}, workers=8, heap="8g", cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        check.spec(r)
        bad: dict[int, list] = {}
        for x in r.get("F"):
            bad.setdefault(x["t"], []).append(x)
        for t, xs in sorted(bad.items()):
            x = min(xs, key=lambda x: x["l"])
            tr = part[t - 1]
            check.violation(x["f"][0]["what"]["clause"], {"clauses": x["f"], "program": tr["prog"], "style": tr["style"], "plan": tr["hist"], "event": tr["events"][x["l"] - 1], "events_before": tr["events"][max(0, x["l"] - 25):x["l"] - 1]})
        check.traces += len(part)
    check.count(what, len(traces))
    check.count("events_judged", sum(len(t["events"]) for t in traces))


def run_all(check: Check, items: list) -> list[dict]:
    import multiprocessing as mp
    engine.artifact_classes()
    engine.spy_backend()
    traces = []
    with mp.get_context("fork").Pool(8) as pool:
        for kind, x in pool.imap_unordered(_one, items, chunksize=max(1, min(32, len(items) // 32))):
            if kind == "ok":
                traces.append(x)
            else:
                check.violation(x["key"], x)
    return traces
