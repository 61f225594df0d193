"""Replaying specification behaviours (labelled transition graphs printed by TLC) on the code."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import traceback
from collections import defaultdict, deque
from collections.abc import Callable
from typing import Any

from vf.core import Check, from_arti


def key(x: Any) -> str:
    return json.dumps(x, sort_keys=True)


class LTS:
    """Transition graph from TLC's "@E{s, a, t}" lines."""

    def __init__(self, edges: list[dict]) -> None:
        seen: dict[tuple[str, str, str], dict] = {}
        for e in edges:
            seen.setdefault((key(e["s"]), key(e["a"]), key(e["t"])), e)
        self.edges = [(s, e["a"], t) for (s, _, t), e in sorted(seen.items())]
        self.out: dict[str, list[int]] = defaultdict(list)
        for i, (s, _, t) in enumerate(self.edges):
            self.out[s].append(i)

    def tours(self, init: list[str], *, max_len: int, rng=None, limit: int | None = None,
              allowed: Callable[[dict], bool] | None = None) -> list[list[int]]:
        """Paths from the initial states that together cover every reachable edge.

        Edges that leave the state unchanged are chained, so one path covers many of them.
        """
        order = {s: list(ix) for s, ix in self.out.items()}
        if rng is not None:
            for ix in order.values():
                rng.shuffle(ix)
        # Shortest paths from an initial state
        back: dict[str, tuple[str, int] | None] = {}
        queue = deque()
        for s in init:
            back[s] = None
            queue.append(s)
        reach = []
        while queue:
            s = queue.popleft()
            reach.append(s)
            for i in order.get(s, ()):
                t = self.edges[i][2]
                if t not in back:
                    back[t] = (s, i)
                    queue.append(t)

        def path_to(s: str) -> list[int]:
            p = []
            while back[s] is not None:
                s, i = back[s]  # type: ignore[misc]
                p.append(i)
            return p[::-1]

        todo = {s: deque(ix) for s, ix in order.items() if s in back}
        covered: set[int] = set()
        paths: list[list[int]] = []
        starts = list(reach)
        if rng is not None:
            rng.shuffle(starts)
        def pending(s: str):
            q = todo.get(s)
            while q and q[0] in covered:
                q.popleft()
            return q

        for start in starts:
            while pending(start):
                if limit is not None and len(paths) >= limit:
                    return paths
                path, s, steps = path_to(start), start, 0
                covered.update(path)
                while steps < max_len and (q := pending(s)):
                    i = q.popleft()
                    path.append(i)
                    covered.add(i)
                    s = self.edges[i][2]
                    steps += 1
                if steps:
                    paths.append(path)
        return paths


def _worker(args):
    make, chunk = args
    out = []
    n = 0
    for path in chunk:
        try:
            bad = make(path)
        except Exception as e:
            if not from_arti(e):
                raise
            bad = (f"unexpected {type(e).__name__}",
                   {"unexpected_error": repr(e), "traceback": traceback.format_exc()[-2500:], "path": path})
        n += 1
        if bad is not None:
            out.append(bad)
            if len(out) >= 5:
                break
    return n, out


def parallel(check: Check, fn: Callable[[Any], tuple[str, Any] | None], items: list, *,
             procs: int | None = None, chunk: int | None = None) -> int:
    """Apply fn (returning None or (key, detail)) to all items in forked processes."""
    procs = procs or min(8, os.cpu_count() or 1)
    if not items:
        return 0
    chunk = chunk or max(1, min(200, len(items) // (procs * 4) or 1))
    chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    done = 0
    if len(chunks) == 1 or procs == 1:
        results = map(_worker, [(fn, c) for c in chunks])
        for n, bad in results:
            done += n
            for k, d in bad:
                check.violation(k, d)
        return done
    global _FN
    _FN = fn
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        for n, bad in pool.imap_unordered(_call, chunks):
            done += n
            for k, d in bad:
                check.violation(k, d)
    return done


_FN: Any = None


def _call(chunk):
    return _worker((_FN, chunk))


def replay_lts(check: Check, lts: LTS, init: list[str], adapter: Callable[[], Any], *,
               max_len: int = 60, limit: int | None = None, what: str = "tours",
               project_every: bool = True) -> int:
    """Drive the code along tours of the graph.

    The adapter provides apply(act) -> observed result (compared with act["res"]) and
    state() -> abstract state (compared with the model state), plus close().
    """
    paths = lts.tours(init, max_len=max_len, rng=check.rng, limit=limit)
    ops: dict[str, int] = defaultdict(int)
    for p in paths:
        for i in p:
            ops[lts.edges[i][1]["op"]] += 1
    steps = sum(map(len, paths))
    check.coverage.setdefault("replay", {})[what] = {
        "paths": len(paths), "steps": steps, "edges": len(lts.edges), "states": len(lts.out), "per_op": dict(ops)}

    def run(path: list[int]):
        ad = adapter()
        log = []
        try:
            for i in path:
                s, act, t = lts.edges[i]
                got = ad.apply(act)
                log.append({"act": act, "got": got})
                if "res" in act and not ad.same(act["res"], got):
                    return (f"{act['op']}: expected {key(act['res'])} got {key(got)}",
                            {"history": log[-25:], "expected": act["res"], "got": got, "in_state": json.loads(s)})
                if project_every:
                    st = ad.state()
                    if st is not None and key(st) != t:
                        return (f"{act['op']}: wrong state", {
                            "history": log[-25:], "expected_state": json.loads(t), "got_state": st})
                    if (wrong := ad.check(json.loads(t))) is not None:
                        return (f"{act['op']}: wrong state", {"history": log[-25:], "expected_state": json.loads(t), "wrong": wrong})
        finally:
            ad.close()
        return None

    n = parallel(check, run, paths)
    check.traces += n
    check.count("replayed_steps", steps)
    if paths:
        mid = paths[len(paths) // 2]
        check.sample([lts.edges[i][1] for i in mid[:8]])
    return n


class Adapter:
    def same(self, expected: Any, got: Any) -> bool:
        return key(expected) == key(got)

    def state(self) -> Any:
        return None

    def check(self, t: Any) -> Any:
        """What is wrong compared with model state t."""
        return None

    def close(self) -> None:
        pass
