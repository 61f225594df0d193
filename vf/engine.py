"""Running histories (spec/Engine.tla) on real graphs, and recording what happens as a trace that
spec/EngineTrace.tla judges.

A program (see spec/EngineDefs.tla) becomes a real Graph: data are rows `[{"v": n}]`, every
producer class logs the values it was given and returns what `Compute` says.
"""
from __future__ import annotations

import json
import os
import pickle
import random
import resource
import shutil
import signal
import tempfile
import traceback
from collections import Counter
from contextlib import contextmanager
from pathlib import Path
from typing import Annotated, Any

from vf import tlc
from vf.core import Check
from vf.replay import key as jkey

COEF = [1, 3, 5, 7]
PAD = "x" * 2000   # output q is padded to 2000 * q bytes, so a file size limit hits chosen outputs


def arti():
    import arti  # noqa: F401
    return arti


# ---------------------------------------------------------------- programs
def raw(part=False, **kw):
    return {"raw": True, "part": part, "prod": 0, "pos": 0, "lit": False, **kw}


def out(p, pos=1, part=False, lit=False):
    return {"raw": False, "part": part, "prod": p, "pos": pos, "lit": lit}


def prod(cls, ins, fn="lin", map="all", nout=1):
    return {"cls": cls, "ins": ins, "fn": fn, "map": map, "nout": nout}


def random_program(rng: random.Random, *, size: int = 6, part: float = 0.6, lit: float = 0.2,
                   fns=("lin", "par", "par", "con")) -> dict:
    """A random acyclic program. Producers equal in class and inputs are never created twice."""
    arts: list[dict] = []
    prods: list[dict] = []
    for _ in range(rng.randint(1, 3)):
        arts.append(raw(rng.random() < part))
    classes: dict[str, dict] = {}
    seen = set()
    tries = 0
    while len(arts) < size and tries < 60:
        tries += 1
        parts = [i for i, a in enumerate(arts, 1) if a["part"]]
        want = None
        if classes and rng.random() < 0.3:
            name, want = rng.choice(sorted(classes.items()))
            sig = want["sig"]
            ins = []
            for p in sig:
                cands = [i for i, a in enumerate(arts, 1) if a["part"] == p]
                if not cands:
                    break
                ins.append(rng.choice(cands))
            if len(ins) != len(sig):
                continue
            P = {**{k: want[k] for k in ("fn", "map", "nout")}, "cls": name, "ins": ins}
        else:
            n_in = rng.choice([0, 1, 1, 1, 2, 2, 3])
            ins = []
            while len(ins) < n_in:
                i = rng.randint(max(1, len(arts) - 3), len(arts)) if rng.random() < 0.6 else rng.randint(1, len(arts))
                if i in ins and rng.random() < 0.5:
                    continue
                ins.append(i)
            has_part = any(i in parts for i in ins)
            map_ = "all"
            if has_part and rng.random() < 0.65:
                map_ = rng.choice(["each", "each", "each", "win", "odd", "prev", "group", rng.choice(["each", "gap"])])
            elif n_in and rng.random() < 0.12:
                map_ = "fan"
            name = "P" + "ABCDEFGHIJ"[len(classes)]
            fn = "con" if not ins else rng.choice(fns)
            P = prod(name, ins, fn, map_, rng.choice([1, 1, 1, 2, 3]))
            classes[name] = {**P, "sig": [arts[i - 1]["part"] for i in ins]}
        if (P["cls"], tuple(P["ins"])) in seen:
            continue
        seen.add((P["cls"], tuple(P["ins"])))
        prods.append(P)
        p = len(prods)
        poss = [q for q in range(1, P["nout"] + 1) if rng.random() < 0.8] or [rng.randint(1, P["nout"])]
        if rng.random() < 0.15:
            poss.append(rng.choice(poss))
        rng.shuffle(poss)
        for q in poss:
            arts.append(out(p, q, P["map"] != "all", rng.random() < lit))
    return {"arts": arts, "prods": prods}


def normalise(prog: dict) -> dict:
    """Fill in what the specification leaves open (number of outputs, literal storage)."""
    prog = json.loads(json.dumps(prog))
    for a in prog["arts"]:
        a.setdefault("lit", False)
    for i, p in enumerate(prog["prods"], 1):
        if "nout" not in p:
            p["nout"] = max([q["pos"] for j, P in enumerate(prog["prods"], 1) if P["cls"] == p["cls"]
                             for q in prog["arts"] if not q["raw"] and q["prod"] == j], default=1)
    return prog


# ---------------------------------------------------------------- faults and logging
class Injected(Exception):
    pass


class InjectedStop(KeyboardInterrupt):
    pass


class Log:
    """What the producers were given, and the fault to inject next."""

    def __init__(self):
        self.execs: list[dict] = []
        self.fault: dict | None = None
        self.hit = False
        self.partial = False
        self.seen = Counter()
        self.outs_left = 0
        self.file: Path | None = None
        self.pad = False
        self.gate: Any = None       # where builds that overlap are put aside (vf.overlap)

    def pause(self, kind: str):
        if self.gate is not None:
            self.gate(kind)

    def dump(self):
        if self.file is not None:
            self.file.write_text(json.dumps({"execs": self.execs, "hit": self.hit, "partial": self.partial}))


LOG = Log()


@contextmanager
def looking():
    """Looking at stored data fails once, where the fault says so."""
    if not (LOG.fault and LOG.fault["kind"] == "look"):
        yield
        return
    from arti.storage.local import LocalFilePartition
    real = LocalFilePartition.compute_content_fingerprint

    def look(self, *a, **k):
        LOG.seen["look"] += 1
        if LOG.fault and LOG.seen["look"] == LOG.fault["nth"]:
            LOG.hit = True
            raise Injected("look")
        return real(self, *a, **k)

    LocalFilePartition.compute_content_fingerprint = look
    try:
        yield
    finally:
        LocalFilePartition.compute_content_fingerprint = real


def _backend_class():
    from arti.backends.memory import MemoryBackend, MemoryConnection

    class SpyConnection(MemoryConnection):
        def _spy(self, name, fn, *a, **k):
            LOG.pause(name)
            f = LOG.fault
            LOG.seen["backend"] += 1
            if f and f["kind"] == "backend" and LOG.seen["backend"] == f["nth"]:
                if f["after"]:
                    fn(*a, **k)
                LOG.hit = True
                raise (InjectedStop if f.get("stop") else Injected)("backend")
            return fn(*a, **k)

        def write_artifact_partitions(self, *a, **k):
            return self._spy("wap", super().write_artifact_partitions, *a, **k)

        def write_snapshot_partitions(self, *a, **k):
            r = self._spy("wsp", super().write_snapshot_partitions, *a, **k)
            if LOG.outs_left > 0:
                LOG.outs_left -= 1
            return r

        def read_artifact_partitions(self, *a, **k):
            LOG.pause("rap")
            return super().read_artifact_partitions(*a, **k)

        def read_snapshot_partitions(self, *a, **k):
            LOG.pause("rsp")
            return super().read_snapshot_partitions(*a, **k)

        def write_graph(self, *a, **k):
            return self._spy("wg", super().write_graph, *a, **k)

        def write_snapshot(self, *a, **k):
            return self._spy("ws", super().write_snapshot, *a, **k)

    class SpyBackend(MemoryBackend):
        @contextmanager
        def connect(self):
            yield SpyConnection(self._container)

    return SpyBackend


_CACHE: dict[str, Any] = {}


def spy_backend():
    if "backend" not in _CACHE:
        _CACHE["backend"] = _backend_class()
    return _CACHE["backend"]()


def artifact_classes():
    if "arts" not in _CACHE:
        from arti import Artifact, Type
        from arti.types import Collection, Int64, List, Struct

        class Un(Artifact):
            type: Type = List(element=Struct(fields={"v": Int64()}))

        class Co(Artifact):
            type: Type = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))

        _CACHE["arts"] = (Un, Co)
    return _CACHE["arts"]


def key_of(pk) -> int:
    return pk["k"].value if pk else 0


def values(rows) -> list[int]:
    return [r["v"] for r in rows]


class Row(dict):
    """A row whose writing can be put aside halfway."""

    def items(self):
        LOG.pause("items")
        return super().items()

    def __reduce__(self):
        LOG.pause("items")
        return dict, (dict(self),)


class Unserializable:
    def __reduce__(self):
        raise TypeError("cannot be pickled")


def compute(fn: str, pos: int, args: list[list[int]]) -> int:
    w = sum(COEF[j] * sum(vals) for j, vals in enumerate(args))
    if fn.startswith("other "):   # another producer's code
        return 100 + compute(fn[6:], pos, args)
    return {"lin": w + 7 * (pos - 1), "par": (w % 2) + 10 * (pos - 1), "con": 4 + pos}[fn]


def replaced_program(prog: dict, rng: random.Random) -> dict:
    """The same artifacts, some of them built by producers of another name that compute something else."""
    names = sorted({p["cls"] for p in prog["prods"]})
    some = set(rng.sample(names, rng.randint(1, len(names)))) if names else set()
    return {**prog, "prods": [{**p, "cls": "Q" + p["cls"][1:], "fn": "other " + p["fn"]} if p["cls"] in some else p
                              for p in prog["prods"]]}


def producer_class(name: str, spec: dict, in_parts: list[bool], out_part: bool):
    """A real Producer class for a program's class."""
    ck = jkey([name, {k: spec[k] for k in ("fn", "map", "nout")}, in_parts, out_part])
    if ck in _CACHE:
        return _CACHE[ck]
    from arti import Fingerprint, PartitionKey, Producer, StoragePartitions, Version
    from arti.internal.mappings import frozendict
    from arti.partitions import Int64Field
    from arti.versions import SemVer

    Un, Co = artifact_classes()
    n = len(in_parts)
    names = [f"i{j}" for j in range(n)]

    def run(args: list[list[dict]]):
        vals = [values(rows) for rows in args]
        LOG.pause("build")
        # SemVer fingerprints are what identifies the version here; the graph tells us which one.
        e = {"cls": name, "v": _CACHE["version_of"](name), "args": vals, "ok": True}
        LOG.execs.append(e)
        LOG.seen[name] += 1
        LOG.outs_left = _CACHE["outs_of"](name)
        LOG.dump()
        f = LOG.fault
        res = []
        for q in range(1, spec["nout"] + 1):
            row = {"v": compute(spec["fn"], q, vals)}
            if LOG.pad:
                row["p"] = PAD * q
            res.append([row if LOG.gate is None else Row(row)])
        if f and f.get("cls") == name and f.get("nth") == LOG.seen[name]:
            if f["kind"] == "raise":
                LOG.hit, e["ok"] = True, False
                LOG.dump()
                raise Injected("build")
            if f["kind"] == "stop":
                LOG.hit, e["ok"] = True, False
                raise InjectedStop("build")
            if f["kind"] == "reject":
                LOG.hit, e["ok"] = True, False
                _CACHE["reject"] = True
                res = [[{"v": 999}] for _ in res]
            if f["kind"] == "unser":
                at = f["pos"] % len(res)
                res[at] = [{"v": 998, "x": Unserializable()}]
            if f["kind"] in ("fsize", "crash"):
                at = f["pos"] % len(res)
                if f["kind"] == "crash":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (len(PAD) * at + 1000, resource.RLIM_INFINITY))
        return tuple(res) if len(res) > 1 else res[0]

    def do_map(ins: dict[str, tuple]):
        LOG.pause("map")
        kind = spec["map"]
        parts = [nm for nm, p in zip(names, in_parts) if p]
        if kind == "fan":
            keys = [1, 2]
        else:
            keys = sorted(set.intersection(*({key_of(s.partition_key) for s in ins[nm]} for nm in parts)))
            if kind == "odd":
                keys = [k for k in keys if k % 2 == 1]
            if kind == "prev":
                keys = [k for k in keys if all(k - 1 in {key_of(s.partition_key) for s in ins[nm]} for nm in parts)]
            if kind == "group":
                keys = sorted({k % 2 + 1 for k in keys})

        def want(nm, k):
            if nm not in parts or kind == "fan":
                return ins[nm]
            if kind == "group":
                return tuple(s for s in ins[nm] if key_of(s.partition_key) % 2 + 1 == k)
            if kind == "gap" and nm == parts[-1] and k > 2:
                return ()
            ks = {k, k - 1} if kind == "win" else {k - 1} if kind == "prev" else {k}
            return tuple(s for s in ins[nm] if key_of(s.partition_key) in ks)

        return frozendict({
            PartitionKey(k=Int64Field(value=k)): frozendict({nm: want(nm, k) for nm in names}) for k in keys})

    ns: dict[str, Any] = {"Annotated": Annotated, "Un": Un, "Co": Co, "StoragePartitions": StoragePartitions,
                          "run": run, "do_map": do_map, "Any": Any}
    params = ", ".join(f"{nm}: Annotated[list, {'Co' if p else 'Un'}]" for nm, p in zip(names, in_parts))
    O = "Annotated[list, Co]" if out_part else "Annotated[list, Un]"
    ret = O if spec["nout"] == 1 else f"tuple[{', '.join([O] * spec['nout'])}]"
    mparams = ", ".join(f"{nm}: StoragePartitions" for nm in names)
    src = (f"def build({params}) -> {ret}:\n    return run([{', '.join(names)}])\n"
           f"def map({mparams}):\n    return do_map({{{', '.join(f'{nm!r}: {nm}' for nm in names)}}})\n"
           "def validate_outputs(*outputs: Any):\n    return check()\n")

    def check():
        LOG.pause("validate")
        if _CACHE.pop("reject", False):
            return False, "rejected"
        return True, ""

    ns["check"] = check
    exec(src, ns)
    body: dict[str, Any] = {
        "__annotations__": {"version": Version, **{nm: Co if p else Un for nm, p in zip(names, in_parts)}},
        "__module__": __name__,
        "version": SemVer(major=1, minor=0, patch=0),
        "build": staticmethod(ns["build"]),
        "validate_outputs": staticmethod(ns["validate_outputs"]),
    }
    if spec["map"] != "all":
        body["map"] = staticmethod(ns["map"])
    cls = type(name, (Producer,), body)
    _CACHE[ck] = cls
    return cls


class Hung(Exception):
    pass


# ---------------------------------------------------------------- the world
class World:
    """A program realised on real storage and a real backend."""

    def __init__(self, prog: dict, style: dict | None = None, *, beside: World | None = None,
                 rewired: bool = False, replaced: bool = False):
        """`beside` shares the backend and storage of another world, as a different graph or (`rewired`, `replaced`)
        as an earlier definition of the same graph whose keys were assigned to other outputs or producers."""
        style = style or {}
        self.prog = prog
        if replaced:
            self.prog = replaced_program(prog, random.Random(style.get("seed", 0)))
        self.beside = beside
        self.dir = beside.dir if beside else Path(tempfile.mkdtemp(prefix="vf-eng-"))
        self.name, self.rawdir = ("g", "raw") if beside is None or rewired or replaced else ("g2", "raw2")
        self.style = style
        self.rng = random.Random(style.get("seed", 0))
        self.pad = bool(style.get("pad"))
        self.ver = {p["cls"]: 1 for p in self.prog["prods"]}
        self.backend = beside.backend if beside else spy_backend()
        self.graphs: dict[str, Any] = {}
        self.snaps: dict[str, Any] = {}
        self.rawstate: dict[int, dict[int, int]] = {
            i: {} for i, a in enumerate(prog["arts"], 1) if a["raw"]}
        self.snapraw: dict[str, str] = {}
        self.built: set[str] = set()
        self.tags: dict[str, str] = {}
        self.events: list[dict] = []
        self.fmt = [style.get("fmt") or self.rng.choice(["json", "json", "pickle"]) for _ in prog["arts"]]
        self.names = [self.rng.choice(["a{}", "a{}", "n.b{}", "n.m.c{}"]).format(i + 1) for i in range(len(prog["arts"]))]
        self.rawtmpl = [self.rng.choice([0, 1, 2]) for _ in prog["arts"]]
        self.order_seed = self.rng.random()
        self.path_tags = self.rng.choice([{}, {}, {"t": "1"}])
        if rewired:
            groups: dict[str, list[int]] = {}
            for n, a in enumerate(prog["arts"]):
                if not a["raw"]:
                    groups.setdefault(jkey([a["part"], a["lit"], self.fmt[n]]), []).append(n)
            for ns in groups.values():
                to = ns[1:] + ns[:1] if self.rng.random() < 0.6 else self.rng.sample(ns, len(ns))
                names = [self.names[n] for n in to]
                for n, nm in zip(ns, names):
                    self.names[n] = nm
        elif beside and not replaced and self.rng.random() < 0.4:
            self.name, self.path_tags = "g", {"t": "2"}

    def definition(self) -> dict:
        """What each key holds (an output may be kept under several keys, and trading these changes nothing)."""
        held: list[Any] = []
        for n, a in enumerate(self.prog["arts"]):
            p = None if a["raw"] else self.prog["prods"][a["prod"] - 1]
            held.append(self.names[n] if p is None else (p["cls"], tuple(held[i - 1] for i in p["ins"]), a["pos"]))
        return dict(zip(self.names, held))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- building the real graph
    def raw_path(self, n: int, k: int | None) -> str:
        a = self.prog["arts"][n - 1]
        ext = ".json" if self.fmt[n - 1] == "json" else ".pkl"
        if not a["part"]:
            return str(self.dir / self.rawdir / f"r{n}{ext}")
        spec = [f"r{n}/{{k.value}}{ext}", f"r{n}/k_{{k.hex}}/data{ext}", f"{{k.value}}/r{n}{ext}"][self.rawtmpl[n - 1]]
        if k is not None:
            spec = spec.replace("{k.value}", str(k)).replace("{k.hex}", hex(k))
        return str(self.dir / self.rawdir / spec)

    def graph(self):
        vk = jkey(self.ver)
        if vk in self.graphs:
            return self.graphs[vk]
        from arti import Graph
        from arti.formats.json import JSON
        from arti.formats.pickle import Pickle
        from arti.storage.literal import StringLiteral
        from arti.storage.local import LocalFile
        from arti.versions import SemVer

        Un, Co = artifact_classes()
        prog = self.prog
        g = Graph(name=self.name, backend=self.backend, path_tags=self.path_tags)
        outputs: dict[int, tuple] = {}
        arts: dict[int, Any] = {}

        def make(n):
            a = prog["arts"][n - 1]
            fmt = JSON() if self.fmt[n - 1] == "json" or a["lit"] else Pickle()
            cls = Co if a["part"] else Un
            if a["raw"]:
                return cls(format=fmt, storage=LocalFile(path=self.raw_path(n, None)))
            st = StringLiteral() if a["lit"] else LocalFile.rooted_at(self.dir / "out")
            return cls(format=fmt, storage=st)

        with g:
            for n, a in enumerate(prog["arts"], 1):
                if a["raw"]:
                    g.artifacts[self.names[n - 1]] = make(n)
                else:
                    # Each assigned artifact is an output of its own `.out` call, as far as possible:
                    # artifacts at distinct positions share one call.
                    P = prog["prods"][a["prod"] - 1]
                    inst = producer_class(
                        P["cls"], P, [prog["arts"][i - 1]["part"] for i in P["ins"]], a["part"]
                    )(version=SemVer(major=self.ver[P["cls"]], minor=0, patch=0),
                      **{f"i{j}": arts[i] for j, i in enumerate(P["ins"])})
                    Oc = Co if a["part"] else Un
                    full = [make(n) if q == a["pos"] else Oc() for q in range(1, P["nout"] + 1)]
                    o = inst.out(*full)
                    if not isinstance(o, tuple):
                        o = (o,)
                    g.artifacts[self.names[n - 1]] = o[a["pos"] - 1]
                arts[n] = g.artifacts[self.names[n - 1]]
        self.graphs[vk] = g
        return g

    def art(self, g, n):
        return g.artifacts[self.names[n - 1]]

    def outs_of(self, cls: str) -> int:
        # The producer about to write cannot be told apart by class alone: take the largest.
        best = 1
        for p, P in enumerate(self.prog["prods"], 1):
            if P["cls"] == cls:
                best = max(best, sum(1 for a in self.prog["arts"] if not a["raw"] and a["prod"] == p))
        return best

    # -- events
    def emit(self, **e):
        self.events.append(e)
        return e

    def set_raw(self, n: int, k: int, v: int, *, via_graph: bool = False):
        from arti import PartitionKey
        from arti.partitions import Int64Field
        rows = [{"v": v}]
        if via_graph:
            g = self.graph()
            pk = PartitionKey(k=Int64Field(value=k)) if self.prog["arts"][n - 1]["part"] else PartitionKey()
            g.write(rows, artifact=self.art(g, n), partition_key=pk)
        else:
            path = Path(self.raw_path(n, k))
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_bytes(json.dumps(rows).encode() if self.fmt[n - 1] == "json" else pickle.dumps(rows))
            # Only the contents tell (as after a copy that keeps the times, or on a coarse clock)
            os.utime(path, (10**9, 10**9))
        self.rawstate[n][k] = v
        self.emit(op="raw", a=n, k=k, v=v)

    def del_raw(self, n: int, k: int):
        os.unlink(self.raw_path(n, k))
        del self.rawstate[n][k]
        self.emit(op="rawdel", a=n, k=k)

    def set_ver(self, cls: str, v: int):
        self.ver[cls] = v
        self.emit(op="ver", cls=cls, v=v)

    def fresh_graphs(self):
        self.graphs.clear()
        self.snaps.clear()
        self.snapraw.clear()
        self.built.clear()
        self.tags.clear()

    def fresh(self):
        self.backend = self.beside.backend if self.beside else spy_backend()
        self.fresh_graphs()
        self.emit(op="fresh")

    def snap(self):
        """Take a snapshot; returns its token or None."""
        g = self.graph()
        f, LOG.fault = LOG.fault, None
        try:
            s = g.snapshot()
        except Exception as e:
            self.emit(op="snap", res="err", id="", error=f"{type(e).__name__}: {e}"[:200])
            return None
        finally:
            LOG.fault = f
        tok = str(s.id)
        self.snaps[tok] = (s, dict(self.ver))
        self.snapraw[tok] = jkey(self.rawstate_json())
        self.emit(op="snap", res="ok", id=tok, error="")
        return tok

    def rawstate_json(self):
        return {str(a): {str(k): v for k, v in d.items()} for a, d in self.rawstate.items()}

    def build(self, *, fault: dict | None = None, token: str | None = None, direct: bool = False):
        """Build (from the current state, or the given older snapshot)."""
        if token is None:
            token = self.snap()
            if token is None:
                return None
        snap, ver = self.snaps[token]
        global LOG
        LOG = Log()
        LOG.fault = fault
        LOG.pad = self.pad
        _CACHE["version_of"] = lambda c: ver[c]
        _CACHE["outs_of"] = self.outs_of
        _CACHE.pop("reject", None)
        rid = error = ""
        if fault and fault["kind"] == "crash":
            res, died = self._crash_build(snap)
            error = "crashed"
        else:
            try:
                # `Graph.build` takes its own snapshot: the same one if nothing changed.
                with looking():
                    r = snap.graph.build() if direct and fault is None else snap.build()
                res, rid, died = "ok", str(r.id), False
            except (Exception, InjectedStop) as e:
                res, error, died = "err", f"{type(e).__name__}: {e}"[:300], False
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        LOG.fault = None
        if fault and fault["kind"] in ("fsize", "unser") and any(
                x in error for x in ("File too large", "Unserializable", "cannot be pickled")):
            LOG.hit = LOG.partial = True
            LOG.execs[-1]["ok"] = False
        if res == "err" and fault and fault["kind"] in ("backend", "look") and LOG.hit and LOG.execs and LOG.outs_left > 0:
            LOG.execs[-1]["ok"] = False
            LOG.partial = True
        self.emit(op="build", id=token, res=res, rid=rid, execs=LOG.execs, hit=LOG.hit,
                  partial=LOG.partial, error=error)
        if res == "ok":
            self.built.add(token)
        if died:
            self.fresh()
        return token

    def _crash_build(self, snap):
        """Build in a process that may be killed in the middle of writing a file."""
        global LOG
        log = self.dir / "exec.log"
        LOG.file = log
        LOG.dump()
        pid = os.fork()
        if pid == 0:
            try:
                snap.build()
                LOG.file.write_text(json.dumps({"execs": LOG.execs, "hit": LOG.hit, "partial": LOG.partial}))
                os._exit(0)
            except BaseException:
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        d = json.loads(log.read_text())
        log.unlink()
        LOG.file = None
        LOG.execs, LOG.hit, LOG.partial = d["execs"], d["hit"], d["partial"]
        # Whatever happened, this process' backend knows nothing of it.
        LOG.hit = True
        if not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0):
            LOG.partial = True
            if LOG.execs:
                LOG.execs[-1]["ok"] = False
        return "err", True

    def read(self, n: int, via: str = "live", *, how: int = 0):
        from arti import View
        try:
            if via == "live":
                g = self.graph()
                rows = g.read(self.art(g, n), annotation=list)
            else:
                s, ver = self.snaps[via]
                if how == 1:
                    tag = f"t{via}"
                    from arti import GraphSnapshot
                    if via not in self.tags:
                        s.tag(tag)
                        self.tags[via] = tag
                    s = GraphSnapshot.from_tag(self.name, tag, connectable=self.backend)
                if how == 2:
                    a = self.art(s.graph, n)
                    view = View.get_class_for(list)(artifact_class=type(a), type=a.type, mode="READ")
                    rows = s.graph.read(a, view=view, snapshot=s)
                else:
                    rows = s.read(self.art(s.graph, n), annotation=list)
            res, vals = "ok", values(rows)
            if any(not isinstance(v, int) for v in vals):
                res, vals = "err", []
        except FileNotFoundError:
            res, vals = "missing", []
        except Exception as e:
            res, vals = "err", []
            return self.emit(op="read", a=n, via=via, res=res, vals=vals, error=f"{type(e).__name__}: {e}"[:300])
        return self.emit(op="read", a=n, via=via, res=res, vals=vals, error="")

    def read_all(self, via="live", *, how=0):
        for n in range(1, len(self.prog["arts"]) + 1):
            self.read(n, via, how=how)

    def trace(self):
        return {"prog": self.prog, "events": self.events, "style": self.style}


# ---------------------------------------------------------------- histories
FAULTS = ("raise", "reject", "unser", "fsize", "crash", "backend", "stop", "look")


def random_fault(rng: random.Random, prog: dict, kinds=FAULTS) -> dict:
    kind = rng.choice(kinds)
    f = {"kind": kind, "pos": rng.randint(0, 2), "nth": rng.choice([1, 1, 1, 2, 3]),
         "cls": rng.choice([p["cls"] for p in prog["prods"]] or ["-"])}
    if kind == "backend":
        f = {"kind": kind, "nth": rng.randint(1, 14), "after": rng.random() < 0.5, "stop": rng.random() < 0.2}
    if kind == "look":
        f = {"kind": kind, "nth": rng.choice([1, 1, 1, 2, 3, 5])}
    return f


def random_history(rng: random.Random, prog: dict, *, ops: int, faults: float = 0.0, vers: float = 0.1,
                   fresh: float = 0.06, rebuild: float = 0.15, old: float = 0.15, values=(1, 2, 3),
                   keys=(1, 2, 3), swap: float = 0.1, kinds=FAULTS) -> list[dict]:
    """A random sequence of operations (indices resolved when run)."""
    raws = [n for n, a in enumerate(prog["arts"], 1) if a["raw"]]
    h: list[dict] = []

    def setraw(n, k=None, v=None):
        part = prog["arts"][n - 1]["part"]
        h.append({"op": "raw", "a": n, "k": k if k is not None else (rng.choice(keys) if part else 0),
                  "v": v if v is not None else rng.choice(values), "graph": rng.random() < 0.3})

    for n in raws:
        for k in (rng.sample(keys, rng.randint(1, len(keys))) if prog["arts"][n - 1]["part"] else [0]):
            setraw(n, k)
    h.append({"op": "build", "fault": random_fault(rng, prog, kinds) if rng.random() < faults else None})
    for _ in range(ops):
        x = rng.random()
        if x < vers and prog["prods"]:
            h.append({"op": "ver", "cls": rng.choice(prog["prods"])["cls"], "v": rng.randint(1, 3)})
        elif x < vers + fresh:
            h.append({"op": "fresh"})
            if faults and rng.random() < 0.6:   # what was there before is not found at once
                h.append({"op": "build", "fault": random_fault(rng, prog, ("look", "look", "backend"))})
        elif x < vers + fresh + rebuild:
            pass
        elif x < vers + fresh + rebuild + swap and len(raws) > 1:
            h.append({"op": "swap", "a": rng.sample(raws, 2)})
        elif raws:
            for _ in range(rng.choice([1, 1, 1, 2])):
                n = rng.choice(raws)
                if prog["arts"][n - 1]["part"] and rng.random() < 0.25:
                    h.append({"op": "rawdel", "a": n, "i": rng.randint(0, 5)})
                else:
                    setraw(n)
            if rng.random() < 0.2:
                h.append({"op": "revert"})
        if rng.random() < 0.85:
            h.append({"op": "build", "fault": random_fault(rng, prog, kinds) if rng.random() < faults else None,
                      "direct": rng.random() < 0.4})
        if rng.random() < old:
            h.append({"op": "buildold", "i": rng.randint(0, 9)})
        if rng.random() < 0.5:
            h.append({"op": "reads", "i": rng.randint(0, 9), "how": rng.randint(0, 2)})
    if faults:
        h.append({"op": "build", "fault": None})
    return h


def run_history(prog: dict, hist: list[dict], style: dict) -> dict:
    """Run a history on the real code; returns the recorded trace."""
    w = World(prog, style)
    first: dict[int, dict[int, int]] | None = None
    w2: World | None = World(prog, style, beside=w) if style.get("decoy") else None
    # The same graph was defined with other keys for the outputs before
    w0: World | None = World(prog, style, beside=w, rewired=True) if style.get("rewired") else None
    if w0 is not None and w0.definition() == w.definition():
        w0 = None
    # ... or the same keys were built by other producers
    if w0 is None and style.get("replaced") and prog["prods"]:
        w0 = World(prog, style, beside=w, replaced=True)
    try:
        for op in hist:
            o = op["op"]
            if o == "raw":
                w.set_raw(op["a"], op["k"], op["v"], via_graph=bool(op.get("graph")))
            elif o == "rawdel":
                ks = sorted(w.rawstate[op["a"]])
                if "k" in op:
                    if op["k"] in ks:
                        w.del_raw(op["a"], op["k"])
                elif ks:
                    w.del_raw(op["a"], ks[op["i"] % len(ks)])
            elif o == "swap":
                a, b = op["a"]
                if prog["arts"][a - 1]["part"] == prog["arts"][b - 1]["part"]:
                    for k in sorted(set(w.rawstate[a]) & set(w.rawstate[b])):
                        x, y = w.rawstate[a][k], w.rawstate[b][k]
                        w.set_raw(a, k, y)
                        w.set_raw(b, k, x)
            elif o == "revert":
                for a, d in (first or {}).items():
                    for k in sorted(set(w.rawstate[a]) - set(d)):
                        w.del_raw(a, k)
                    for k, v in d.items():
                        if w.rawstate[a].get(k) != v:
                            w.set_raw(a, k, v)
            elif o == "ver":
                w.set_ver(op["cls"], op["v"])
            elif o == "fresh":
                w.fresh()
            elif o == "build":
                if first is None:
                    first = {a: dict(d) for a, d in w.rawstate.items()}
                if w0 is not None and w.rng.random() < 0.5:
                    w0.rawstate = {a: dict(d) for a, d in w.rawstate.items()}
                    w0.ver = {P["cls"]: w.ver[Q["cls"]] for P, Q in zip(w0.prog["prods"], prog["prods"])}
                    w0.backend = w.backend
                    w0.fresh_graphs()
                    tok = w0.build()
                    w.emit(op="rewired", id=tok or "")
                w.build(fault=op.get("fault"), direct=bool(op.get("direct")))
                if w2 is not None:
                    # Another graph with the same content next to this one: must never interfere.
                    w2.fresh()
                    for a, d in w.rawstate.items():
                        for k in set(d) | ({5} if prog["arts"][a - 1]["part"] else {0}):
                            w2.set_raw(a, k, d.get(k, 2) + w.rng.choice([0, 0, 1]), via_graph=w.rng.random() < 0.3)
                    w2.build()
                w.read_all()
            elif o == "buildold":
                toks = sorted(w.snaps)
                if toks:
                    t = toks[op["i"] % len(toks)]
                    if t in w.built or w.snapraw[t] == jkey(w.rawstate_json()):
                        w.build(token=t)
                        w.read_all(t)
            elif o == "reads":
                toks = sorted(w.snaps)
                for j in range(min(3, len(toks))):
                    w.read_all(toks[(op["i"] + j) % len(toks)], how=op["how"])
            elif o == "snap":
                w.snap()
            else:
                raise AssertionError(o)
        for t in sorted(w.snaps):
            w.read_all(t, how=1)
    finally:
        w.close()
    tr = w.trace()
    tr["hist"] = hist
    return tr


def judge(check: Check, traces: list[dict], *, what: str, workers: int = 4, tag: str | None = None) -> None:
    """Let TLC decide the recorded traces (spec/EngineTrace.tla)."""
    tag = tag or check.pid
    if not traces:
        return
    per = 400
    for at in range(0, len(traces), per):
        part = traces[at:at + per]
        with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="vf-trace-") as f:
            json.dump([{"prog": t["prog"], "events": t["events"]} for t in part], f)
            f.flush()
            r = tlc.run("EngineTrace", env={"TRACE": f.name}, workers=workers, heap="6g",
                        cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        check.spec(r)
        bad: dict[int, list] = {}
        for x in r.get("F"):
            bad.setdefault(x["t"], []).append(x)
        for t, xs in sorted(bad.items()):
            for x in sorted(xs, key=lambda x: x["l"]):
                mine = [c for c in x["f"] if tag in c["tags"]]
                if mine:
                    tr = part[t - 1]
                    check.violation(mine[0]["what"]["clause"], {
                        "clauses": mine, "program": tr["prog"], "style": tr.get("style"),
                        "history": tr.get("hist"), "event": tr["events"][x["l"] - 1],
                        "events_before": tr["events"][max(0, x["l"] - 25):x["l"] - 1]})
                    break
        check.traces += len(part)
    check.count(what, len(traces))
    check.count("events_judged", sum(len(t["events"]) for t in traces))


# ---------------------------------------------------------------- using the specification
MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Programs <- {programs}
 Values = {{1, 2}}
 Keys = {{1, 2}}
 MaxOps = {ops}
 MaxVer = 2
INVARIANTS {inv}
PROPERTIES Stable
VIEW HistView
CHECK_DEADLOCK FALSE
"""
SIM_CFG = """SPECIFICATION GenSpec
CONSTANTS
 Programs <- GenPrograms
 Values = {{1, 2}}
 Keys = {{1, 2}}
 MaxOps = {ops}
 MaxVer = 2
INVARIANTS BuiltIsFresh TriedIsSound NoRepeat EmitHist
CHECK_DEADLOCK FALSE
"""
INV = "BuiltIsFresh TriedIsSound NoRepeat Deterministic KnownIsStored"


def model_check(check: Check, *, ops: int, inv: str = INV, extra: int = 0) -> None:
    """Exhaustively check the build algorithm's specification on bounded worlds."""
    check.spec(tlc.run("MCEngine", workers=8, heap="12g", cfg_text=MC_CFG.format(
        programs="MCPrograms", ops=ops, inv=inv)), what=f"Engine: 8 programs, {ops} operations")
    if extra:
        progs = [random_program(check.rng, size=check.rng.randint(2, 5)) for _ in range(extra)]
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump(progs, f)
            f.flush()
            check.spec(tlc.run("EngineGen", env={"PROGS": f.name, "FAULT_ODDS": "0"}, workers=8, heap="12g",
                               timeout=880, cfg_text=MC_CFG.format(programs="GenPrograms", ops=min(ops, 2), inv=inv)),
                       what=f"Engine: {extra} random programs, {min(ops, 2)} operations")


def spec_histories(check: Check, *, num: int, ops: int, fault_odds: int, progs: int = 16,
                   part: float = 0.6) -> list[tuple[dict, list[dict]]]:
    """Histories that are behaviours of Engine (from TLC's simulator), as operations to run."""
    rng = check.rng
    programs = [random_program(rng, size=rng.randint(2, 6), part=part) for _ in range(progs)]
    with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
        json.dump(programs, f)
        f.flush()
        r = tlc.run("EngineGen", env={"PROGS": f.name, "FAULT_ODDS": str(fault_odds)}, workers=4, simulate=num,
                    depth=40 * ops, seed=check.seed * 1000 + rng.randint(0, 999), heap="6g",
                    cfg_text=SIM_CFG.format(ops=ops))
    check.spec(r, what=f"Engine simulation, {ops} operations")
    res = []
    seen = set()
    for x in r.get("H"):
        if jkey(x) in seen:
            continue
        seen.add(jkey(x))
        prog = normalise(x["prog"])
        h: list[dict] = []
        for n, a in enumerate(prog["arts"], 1):
            if a["raw"]:
                for k in ((1, 2) if a["part"] else (0,)):
                    h.append({"op": "raw", "a": n, "k": k, "v": 1, "graph": rng.random() < 0.3})
        for op in x["hist"]:
            if op["op"] == "fault":
                at = op["at"]
                f = random_fault(rng, prog, {"exec": ("raise", "reject", "stop"), "between": ("backend", "look"),
                                             "out": ("unser", "fsize", "crash", "backend", "backend")}[at["kind"]])
                if at["cls"] and "cls" in f:
                    f["cls"] = at["cls"]
                h[-1]["fault"] = f
                continue
            h.append({**op, **({"direct": rng.random() < 0.3, "fault": None} if op["op"] == "build" else {})})
        res.append((prog, h))
    rng.shuffle(res)
    return res


_OUT: list = []


def run_all(check: Check, items: list[tuple[dict, list[dict], dict]]) -> list[dict]:
    """Run histories in parallel; an exception out of the code under test is a violation."""
    import multiprocessing as mp
    artifact_classes()
    spy_backend()
    traces: list[dict] = []
    with mp.get_context("fork").Pool(8) as pool:
        for kind, x in pool.imap_unordered(_run_one, items, chunksize=max(1, min(16, len(items) // 32))):
            if kind == "ok":
                traces.append(x)
            else:
                check.violation(x["key"], x)
    return traces


def _run_one(item):
    prog, hist, style = item
    try:
        return "ok", run_history(prog, hist, style)
    except Exception as e:
        from vf.core import from_arti
        if not from_arti(e):
            raise
        return "bad", {"key": f"unexpected {type(e).__name__}", "error": repr(e), "program": prog,
                       "history": hist, "style": style, "traceback": traceback.format_exc()[-2500:]}


def campaign(check: Check, *, what: str, n: int, ops: int, size=(2, 7), part=0.6, decoy=0.0, lit=0.2, pad=0.3, tag=None,
             rewired=0.0, replaced=0.0, fns=("lin", "par", "par", "con"), **kw) -> None:
    """Random programs and histories on the code, decided by EngineTrace."""
    rng = check.rng
    items = []
    for _ in range(n):
        p = random_program(rng, size=rng.randint(*size), part=part, lit=lit, fns=fns)
        items.append((p, random_history(rng, p, ops=rng.randint(max(1, ops // 2), ops), **kw),
                      {"seed": rng.randint(0, 10**6), "pad": rng.random() < pad, "decoy": rng.random() < decoy,
                       "rewired": rng.random() < rewired, "replaced": rng.random() < replaced}))
    traces = run_all(check, items)
    if traces:
        t = min(traces, key=lambda t: len(t["events"]))
        check.sample({"program": t["prog"], "history": t["hist"][:8]})
    judge(check, traces, what=what, tag=tag, workers=8)


def spec_campaign(check: Check, *, what: str, num: int, ops: int, fault_odds: int, limit: int, pad=0.3, tag=None, **kw) -> None:
    items = [(p, h, {"seed": check.rng.randint(0, 10**6), "pad": check.rng.random() < pad})
             for p, h in spec_histories(check, num=num, ops=ops, fault_odds=fault_odds, **kw)][:limit]
    judge(check, run_all(check, items), what=what, tag=tag, workers=8)
