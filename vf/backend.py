"""Driving real backends along spec/Backend.tla."""
from __future__ import annotations

import copy
import json
import os
import pickle
import random
from typing import Any

from arti import Artifact, Fingerprint, Graph, GraphSnapshot, InputFingerprints, PartitionKey, Type
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.partitions import Int64Field
from arti.storage import StoragePartitionSnapshot
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, Struct

from vf import tlc
from vf.core import Scratch
from vf.replay import LTS, Adapter, key, replay_lts


class Rows(Artifact):
    type: Type = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))


class Num(Artifact):
    type: Type = Int64()


def store(a):
    return {"c": "r", "q": "q", "q2": "q"}.get(a, "s")


def ifp(i):
    return None if i == 0 else Fingerprint.from_int(1000 + i)


def pkey(k):
    return PartitionKey(k=Int64Field(value=k))


class Tables(Adapter):
    """One world of backends, reached through changing connections and copies."""

    def __init__(self):
        self.scratch = Scratch()
        self.dir = self.scratch.__enter__()
        self.rng = random.Random(1)
        self.backends: dict[int, MemoryBackend] = {}
        self.held: dict[int, Any] = {}
        self.arts: dict[str, Artifact] = {}
        self.cache: dict[str, Any] = {}

    def close(self):
        self.scratch.__exit__()

    # -- the same backend, seen from different places
    def backend(self, x):
        if x not in self.backends:
            self.backends[x] = MemoryBackend()
        b = self.backends[x]
        return self.rng.choice([
            lambda: b, lambda: b, lambda: copy.copy(b), lambda: copy.deepcopy(b), lambda: b.model_copy(),
            lambda: b.model_copy(deep=True), lambda: Graph(name="other", backend=b).backend,
            lambda: Graph(name="other", backend=b).model_copy(deep=True).backend])()

    def conn(self, x):
        """A connection: a new one, one opened earlier, or one through another."""
        how = self.rng.randrange(3)
        if how == 0 and x in self.held:
            return self.held[x]
        cm = self.backend(x).connect()
        c = cm.__enter__()
        if how == 1:
            self.held[x] = c
        if how == 2:
            c = c.connect().__enter__()
        return c

    # -- the things recorded
    def graph(self, n, v, b=None):
        ck = f"{n}{v}"
        if ck in self.cache and self.rng.random() < 0.7:
            return self.cache[ck]
        with Graph(name=n, backend=MemoryBackend() if b is None else b) as g:
            g.artifacts.a = Num(format=JSON(), storage=StringLiteral(value=str(v)))
        self.cache[ck] = g
        return g

    def snap(self, n, i, b=None):
        # Equal snapshots must be interchangeable, so make them anew now and then.
        g = self.graph(n, 1)
        if b is not None:
            g = g.model_copy(update={"backend": b})
        return GraphSnapshot(id=Fingerprint.from_int(10 + i), graph=g)

    def artifact(self, a):
        if a not in self.arts:
            root = self.dir / store(a)
            self.arts[a] = Rows(format=JSON(), storage=LocalFile(
                path=str(root / "k_{k.value}" / ("x.json" if store(a) == "q" else "{input_fingerprint}.json"))),
                **({"annotations": (self.note(),)} if a.endswith("2") else {}))
        art = self.arts[a]
        return art.model_copy() if self.rng.random() < 0.3 else art

    def note(self):
        from vf.checks.c06 import Note
        return Note(x=1)

    def path(self, s, p):
        return self.dir / s / f"k_{p['k']}" / ("x.json" if s == "q" else f"{ifp(p['ifp'])}.json")

    def part(self, s, p):
        """The record of a partition; version 1 is what is found if it is stored."""
        st = self.artifact({"r": "c", "q": "q", "s": "a"}[s]).storage
        sp = st.generate_partition(input_fingerprint=ifp(p["ifp"]), partition_key=pkey(p["k"]))
        return StoragePartitionSnapshot(content_fingerprint=self.content(p), storage_partition=sp)

    def content(self, p):
        import hashlib
        return Fingerprint.from_string(hashlib.sha256(self.text(p).encode()).hexdigest())

    def text(self, p):
        return json.dumps([{"v": 100 * p["k"] + 10 * p["ifp"] + p["v"]}])

    def seen(self, snaps, where=False):
        by = {int(self.content({"k": k, "ifp": i, "v": v})): {"k": k, "ifp": i, "v": v}
              for k in (1, 2, 3) for i in (0, 1, 2) for v in (1, 2)}
        out = []
        for s in snaps:
            p = by.get(int(s.content_fingerprint), {"unknown": str(s)})
            if s.partition_key != pkey(p.get("k", 0)) or s.input_fingerprint != ifp(p.get("ifp", 0)):
                p = {"mixed up": str(s)}
            if where:
                p = {"s": next((n for n, a in (("s", "a"), ("r", "c"), ("q", "q")) if s.storage == self.artifact(a).storage), "?"), "p": p}
            out.append(p)
        return sorted(out, key=key)

    def same(self, expected, got):
        if isinstance(expected, list):
            expected = sorted(expected, key=key)
        return key(expected) == key(got)

    def apply(self, a):
        self.rng = random.Random(key([a, self.rng.random()]))
        op = a["op"]
        if op in ("store", "unstore"):
            p = self.path(a["s"], a["p"])
            if op == "unstore":
                os.unlink(p)
            else:
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(self.text(a["p"]))
            return True
        if op == "clone":
            self.backends[a["to"]] = pickle.loads(pickle.dumps(self.backend(a["b"])))
            self.held.pop(a["to"], None)
            return True
        c = self.conn(a["b"])
        if op == "write_graph":
            c.write_graph(self.graph(a["n"], a["v"]))
            return True
        if op == "read_graph":
            want = self.graph(a["of"], a["v"])
            try:
                g = c.read_graph(a["n"], want.fingerprint)
            except (KeyError, ValueError):
                return "error"
            return "it" if g.fingerprint == want.fingerprint and g.name == a["n"] and g.artifacts == want.artifacts else "another"
        if op == "write_snapshot":
            c.write_snapshot(self.snap(a["n"], a["i"]))
            return True
        if op == "read_snapshot":
            want = self.snap(a["of"], a["i"])
            try:
                s = c.read_snapshot(a["n"], want.fingerprint)
            except (KeyError, ValueError):
                return "error"
            return "it" if s.id == want.id and s.name == a["n"] and s.fingerprint == want.fingerprint else "another"
        if op == "tag":
            try:
                if self.rng.random() < 0.5:
                    s = self.snap(a["n"], a["i"])
                    s.tag(a["t"], overwrite=a["over"], connection=c)
                else:
                    b = self.backend(a["b"])
                    self.snap(a["n"], a["i"], b).tag(a["t"], overwrite=a["over"])
            except ValueError:
                return False
            return True
        if op == "read_tag":
            try:
                s = GraphSnapshot.from_tag(a["n"], a["t"], connectable=c if self.rng.random() < 0.5 else self.backend(a["b"]))
            except (ValueError, KeyError):
                return 0
            return int(s.id) - 10 if s.name == a["n"] else f"of {s.name}"
        if op == "link":
            art = self.artifact("a")
            c.write_snapshot_partitions(self.snap(a["n"], a["i"]), a["k"], art, tuple(self.part("s", p) for p in a["parts"]))
            return True
        if op == "read_links":
            return self.seen(c.read_snapshot_partitions(self.snap(a["n"], a["i"]), a["k"], self.artifact("a")), True)
        s = store(a["a"])
        if op == "write_parts":
            parts = tuple(self.part(s, p) for p in a["parts"])
            if a["how"] == "both":
                c.write_artifact_and_graph_partitions(self.snap(self.first["n"], self.first["i"]), self.first["k"],
                                                      self.artifact(a["a"]), parts)
            else:
                c.write_artifact_partitions(self.artifact(a["a"]), parts)
            return True
        if op == "read_parts":
            f = InputFingerprints({pkey(k): ifp(i) for k, i in a["filter"]})
            args = (f,) if a["filter"] or self.rng.random() < 0.3 else ()
            return self.seen(c.read_artifact_partitions(self.artifact(a["a"]), *args))
        raise AssertionError(op)

    first = {"n": "g", "i": 1, "k": "k1"}


def cfg(*, backends="{1}", names='{"g", "h"}', tags='{"t"}', ids="{1, 2}", keys='{"k1", "k2"}', parts="P1", arts="OneStorage",
        groups, filters="F1", nxt="Next"):
    return (f"INIT Init\nNEXT {nxt}\nCONSTANTS\n Backends = {backends}\n Names = {names}\n Tags = {tags}\n Ids = {ids}\n"
            f" Keys = {keys}\n Parts <- {parts}\n Arts <- {arts}\n Filters <- {filters}\n Groups = {{{groups}}}\n"
            "INVARIANTS Laws\n" + ("PROPERTIES Isolated Keeps\n" if nxt == "Next" else "") + "CHECK_DEADLOCK FALSE\n")


EMPTY = {"graphs": [], "snaps": [], "tags": [], "links": [], "seen": [], "known": [], "open": []}


def canonical(state):
    """Sets come in TLC's order; make equal states equal text."""
    return {"b": {k: {f: sorted(v, key=key) for f, v in t.items()} for k, t in
                  (enumerate(state["b"], 1) if isinstance(state["b"], list) else state["b"].items())},
            "disk": sorted(state["disk"], key=key)}


def exhaustive(check, what, limit=None, max_len=50, **kw):
    r = tlc.run("Backend", workers=4, cfg_text=cfg(**kw))
    check.spec(r, what=f"Backend: {what}")
    edges = [{"s": canonical(e["s"]), "a": e["a"], "t": canonical(e["t"])} for e in r.get("E")]
    lts = LTS(edges)
    n = len(kw.get("backends", "{1}").split(","))
    init = key({"b": {i: EMPTY for i in range(1, n + 1)}, "disk": []})
    assert init in lts.out, init
    replay_lts(check, lts, [init], Tables, what=what, limit=limit, max_len=max_len, project_every=False)


def simulated(check, what, *, num, depth, **kw):
    """Random walks of the whole specification."""
    from vf.replay import parallel
    r = tlc.run("Backend", workers=1, simulate=num, depth=depth, seed=check.seed, heap="6g",
                cfg_text=cfg(groups='"all"', nxt="SimNext", **kw))
    check.spec(r, what=f"Backend: {what}")
    runs, cur, last = [], [], None
    start = key(canonical({"b": [EMPTY, EMPTY], "disk": []}))
    for e in r.get("E"):
        s = key(canonical(e["s"]))
        if s == start and last != start:
            runs.append(cur)
            cur = []
        elif cur and s != last:
            runs.append(cur)
            cur = []
            if s != start:
                last = None
                continue
        cur.append(e)
        last = key(canonical(e["t"]))
    runs.append(cur)
    runs = [x for x in runs if x and key(canonical(x[0]["s"])) == start]

    def one(run):
        ad = Tables()
        log = []
        try:
            for e in run:
                got = ad.apply(e["a"])
                log.append({"act": e["a"], "got": got})
                if not ad.same(e["a"]["res"], got):
                    return (f"{e['a']['op']}: expected {key(e['a']['res'])} got {key(got)}",
                            {"history": log[-30:], "expected": e["a"]["res"], "got": got})
        finally:
            ad.close()
        return None
    check.traces += parallel(check, one, runs)
    check.count(what, len(runs))
    check.count(what + "_steps", sum(map(len, runs)))
