"""Function-like specifications: TLC enumerates every case with what is expected of it, the code is run on each."""
from __future__ import annotations

import json
import traceback
from collections.abc import Callable
from typing import Any

from vf import tlc
from vf.core import Check, from_arti
from vf.replay import key, parallel


def cases(check: Check, module: str, *, inv: str = "Laws", consts: str = "", what: str | None = None,
          workers: int = 4, tag: str = "C", env: dict | None = None, heap: str = "6g", extra: str = "",
          init: str = "Init", emit: str = "Emit", nxt: str = "Next") -> list[dict]:
    """All cases of a table specification (its laws are checked on the way)."""
    r = tlc.run(module, workers=workers, heap=heap, env=env, cfg_text=(
        f"INIT {init}\nNEXT {nxt}\n{'CONSTANTS ' + consts if consts else ''}\nINVARIANTS {inv} {emit}\n{extra}\nCHECK_DEADLOCK FALSE\n"))
    check.spec(r, what=what or module)
    return r.get(tag)


def compare(check: Check, items: list[dict], fn: Callable[[dict], Any], *, what: str,
            same: Callable[[Any, Any], bool] | None = None, name: Callable[[dict], str] | None = None,
            chunk: int | None = None, procs: int | None = None) -> None:
    """fn(case) must observe case["want"]."""
    def one(x: dict):
        got = fn(x["c"])
        ok = same(x["want"], got) if same else key(x["want"]) == key(got)
        if ok:
            return None
        return (f"{what}: {name(x['c']) if name else key(x['c'])[:300]}",
                {"case": x["c"], "expected": x["want"], "got": got})

    n = parallel(check, one, items, chunk=chunk, procs=procs)
    check.traces += n
    check.count(what, len(items))
    if items:
        check.sample({what: items[check.rng.randrange(len(items))]})


def classes(check: Check, items: list[dict], fn: Callable[[dict], Any], *, what: str, procs: int | None = None) -> None:
    """fn(case) must be equal for two cases exactly when their case["want"] (identity) is."""
    import multiprocessing as mp
    got: list[Any] = _pmap(fn, [x["c"] for x in items], procs=procs)
    bad = [(x, g) for x, g in zip(items, got) if isinstance(g, Broken)]
    for x, g in bad:
        check.violation(f"{what}: unexpected {g.name}", {"case": x["c"], "traceback": g.text})
    for x, g in zip(items, got):
        if isinstance(g, Wrong):
            check.violation(f"{what}: {key(g.detail)[:300]}", {"case": x["c"], "got": g.detail})
    items, got = [x for x, g in zip(items, got) if not isinstance(g, (Broken, Wrong))], [g for g in got if not isinstance(g, (Broken, Wrong))]
    by_want: dict[str, tuple[Any, dict]] = {}
    by_got: dict[str, tuple[Any, dict]] = {}
    for x, g in zip(items, got):
        w, gk = key(x["want"]), key(g)
        if w in by_want and by_want[w][0] != gk:
            check.violation(f"{what}: equal things differ", {
                "a": by_want[w][1], "b": x["c"], "got_a": by_want[w][0], "got_b": gk, "identity": x["want"]})
        if gk in by_got and by_got[gk][0] != w:
            check.violation(f"{what}: different things coincide", {
                "a": by_got[gk][1], "b": x["c"], "got": g})
        by_want.setdefault(w, (gk, x["c"]))
        by_got.setdefault(gk, (w, x["c"]))
    check.traces += len(items)
    check.count(what, len(items))
    if items:
        check.sample({what: items[check.rng.randrange(len(items))]})


_PFN: Any = None


class Wrong:
    """Not an identity at all, something is inconsistent."""

    def __init__(self, detail):
        self.detail = detail


class Broken:
    """The code under test raised where every correct version gives an answer."""

    def __init__(self, name, text):
        self.name, self.text = name, text


def _pcall(x):
    return _safe(_PFN, x)


def _safe(fn, x):
    try:
        return fn(x)
    except Exception as e:
        if not from_arti(e):
            raise
        return Broken(type(e).__name__, traceback.format_exc()[-2500:])


def _pmap(fn, xs, *, procs=None):
    import multiprocessing as mp
    global _PFN
    _PFN = fn
    procs = procs or 8
    if len(xs) < 40 or procs == 1:
        return [_pcall(x) for x in xs]
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(_pcall, xs, chunksize=max(1, len(xs) // (procs * 4)))
