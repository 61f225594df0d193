"""C25: literals are written once and live with the backend (spec/Literal.tla, spec/Literals.tla)."""
import functools
import json

from vf import tables, tlc
from vf.core import Scratch
from vf.replay import LTS, Adapter, key, replay_lts

CFG = """SPECIFICATION Spec
CONSTANTS Arts = {arts} Backends = {backends} Others = {others}
INVARIANTS Laws
PROPERTIES Once Stays Apart
"""


def canon(e):
    for k in "st":
        for f in ("stored", "linked"):
            e[k][f] = {b: sorted(v) for b, v in e[k][f].items()}
    if e["a"]["op"] == "build":
        e["a"]["res"] = sorted(e["a"]["res"])
    return e


@functools.cache
def defs():
    from typing import Annotated

    from arti import Artifact, Producer
    from arti.internal.mappings import frozendict
    from arti.producers import PartitionDependencies
    from arti.storage import StoragePartitions
    from arti import types as at

    class D:
        ran: list = []

    class X(Artifact):
        type: at.Type = at.Int64()

    class Lit(Artifact):
        type: at.Type = at.Int64()

    class Part(Artifact):
        type: at.Type = at.Collection(element=at.Struct(fields={"k": at.Int64(), "v": at.Int64()}), partition_by=("k",))

    class Make(Producer):
        _abstract_ = True
        x: X

    class MakeP(Make):
        @staticmethod
        def build(x: int) -> Annotated[int, Lit]:
            D.ran.append(["P", 0])
            return 10 + x

    class MakeS(Make):
        @staticmethod
        def build(x: int) -> Annotated[int, Lit]:
            D.ran.append(["S", 0])
            return 10 + x

    class MakeQ(Producer):
        x: Part

        @staticmethod
        def map(x: StoragePartitions) -> PartitionDependencies:
            return PartitionDependencies({p.partition_key: frozendict(x=(p,)) for p in x})

        @staticmethod
        def build(x: Annotated[list[dict], Part]) -> Annotated[list[dict], Part]:
            D.ran.append(["Q", x[0]["k"]])
            return [r | {"v": r["v"] + 10} for r in x]


    for k, v in {"X": X, "Lit": Lit, "Part": Part, "MakeP": MakeP, "MakeS": MakeS, "MakeQ": MakeQ}.items():
        setattr(D, k, v)
    return D


class LiteralAdapter(Adapter):
    """Literals produced from a raw artifact: a file that changes, or a literal of another graph."""

    def __init__(self, arts, kind, fps=(0, 1)) -> None:
        self.fps, self.known = fps, {}
        from arti.backends.memory import MemoryBackend
        self.d, self.arts, self.kind = defs(), arts, kind
        self.scratch = Scratch()
        self.dir = self.scratch.__enter__()
        self.backends = {b: MemoryBackend() for b in "AB"}
        self.be, self.x, self.step = "A", 0, 0
        self.graphs, self.snaps, self.ids = {}, {}, {}
        for b in "AB":
            for i in (1, 0):
                self.put(i)
                self.graphs[b, i] = self.graph(b, i)
                self.snaps[b, i] = self.graphs[b, i].snapshot()

    def close(self) -> None:
        self.scratch.__exit__(None, None, None)

    def put(self, i) -> None:
        self.x = i
        (self.dir / "x.json").write_text(str(i))
        for k in (0, 1):
            (self.dir / f"xs{k}.json").write_text(json.dumps([{"k": k, "v": i + 5 * k}]))

    def graph(self, b, i):
        from arti import Graph
        from arti.storage.local import LocalFile
        d = self.d
        with Graph(name="g", backend=self.backends[b]) as g:
            if self.kind == "file":
                g.artifacts.x = d.X(storage=LocalFile(path=str(self.dir / "x.json")))
            else:
                g.artifacts.x = d.X.cast(i)
            if "Q" in self.arts:
                g.artifacts.xs = d.Part(storage=LocalFile(path=str(self.dir / "xs{k.value}.json")))
                g.artifacts.n.q = d.MakeQ(x=g.artifacts.xs).out()
            if "P" in self.arts:
                g.artifacts.p = d.MakeP(x=g.artifacts.x).out()
            if "S" in self.arts:
                g.artifacts.n.p = d.MakeS(x=g.artifacts.x).out()
        return g

    @property
    def g(self):
        return self.graphs[self.be, self.x]

    def art(self, g, a):
        return {"P": lambda: g.artifacts.p, "S": lambda: g.artifacts.n.p, "Q": lambda: g.artifacts.n.q}[a]()

    def data(self, p, v):
        return v if p[0] != "Q" else [{"k": p[1], "v": v}]

    def places(self):
        return [[a, k] for a in self.arts for k in ((0, 1) if a == "Q" else (0,))]

    def place(self, p, i, b=None):
        """How the location is named: its input fingerprint and partition key."""
        from arti import PartitionKey
        from arti.fingerprints import Fingerprint
        from arti.partitions import Int64Field
        kw = {}
        if p[0] == "Q":
            kw["partition_key"] = PartitionKey(k=Int64Field(value=p[1]))
        if i not in (0, 1):
            return kw | {"input_fingerprint": Fingerprint.from_int(12345 + i)}
        if (*p, i) in self.known:
            return kw | {"input_fingerprint": self.known[*p, i]}
        g = self.graphs[b or self.be, i]
        a = self.art(g, p[0])
        was, _ = self.x, self.put(i)
        raws = {n: r.storage.discover_partitions() for n, r in a.producer_output.producer.inputs.items()}
        deps, fps = a.producer_output.producer.compute_dependencies(raws)
        self.put(was)
        (self.known[*p, i],) = (fp,) = [f for k, f in fps.items() if k == kw.get("partition_key", k)]
        return kw | {"input_fingerprint": fp}

    def apply(self, act):
        from arti import PartitionKey
        from arti.partitions import Int64Field
        op = act["op"]
        if op == "change":
            self.put(act["x"])
        elif op == "switch":
            self.be = act["be"]
        elif op == "reopen":
            self.graphs[self.be, self.x] = self.graph(self.be, self.x)
        elif op == "build":
            self.d.ran.clear()
            self.g.build()
            return sorted(self.d.ran)
        elif op == "write":
            g, p = self.g, act["p"]
            a = self.art(g, p[0])
            out = (g if act["via"] == "graph" else g.snapshot()).write(self.data(p, act["v"]), artifact=a, **self.place(p, act["fp"]))
            if json.loads(out.storage_partition.value) != self.data(p, act["v"]):
                return "another value recorded"
            if self.ids.setdefault(out.storage_partition.id, (p, act["fp"])) != (p, act["fp"]):
                return "the location is the one of " + repr(self.ids[out.storage_partition.id])
        elif op == "refused write":
            g, a = self.g, self.art(self.g, act["a"])
            kw = self.place([act["a"], 0], act["x"])
            if act["how"] == "no fingerprint":
                del kw["input_fingerprint"]
            elif act["how"] == "no key":
                del kw["partition_key"]
            else:
                kw["partition_key"] = PartitionKey(k=Int64Field(value=0))
            for src in (g, g.snapshot()):
                try:
                    src.write(self.data([act["a"], 0], 7), artifact=a, **kw)
                    return "accepted"
                except ValueError:
                    pass
            return "refused"
        return "ok"

    def read(self, src, g, a):
        try:
            got = src.read(self.art(g, a), annotation=list[dict] if a == "Q" else int)
        except FileNotFoundError:
            return []
        return [[a, 0, got]] if a != "Q" else sorted([a, r["k"], r["v"]] for r in got)

    def check(self, t):
        """Everything is read by the snapshots, at times in other ways too."""
        was, wrong = self.x, None
        self.step += 1
        if self.step % 5 == 0:
            from arti import PartitionKey
            for b in t["stored"]:
                g = self.graphs[b, 0]
                for p in self.places():
                    for i in self.fps:
                        at = self.place(p, i, b)
                        with g.backend.connect() as conn:
                            found = conn.read_artifact_partitions(self.art(g, p[0]), {at.get("partition_key", PartitionKey()): at["input_fingerprint"]})
                        want = [json.dumps(self.data(p, v)) for q, j, v in ([q, j, v] for *q, j, v in t["stored"][b]) if list(q) == p and j == i]
                        if sorted(f.storage_partition.value for f in found) != want:
                            return {"backend": b, "place": p, "fingerprint": i, "want": want, "found": repr(found)}
        for b in t["linked"]:
            if b != self.be and self.step % 3:
                continue
            for i in (0, 1):
                g = self.graphs[b, i]
                want = sorted([p[0], p[1], v] for p, j, v in t["linked"][b] if j == i)
                how = {"snapshot": self.snaps[b, i]}
                if self.step % 4 == i:
                    self.put(i)
                    how["new snapshot"] = g.snapshot()
                    how["graph"] = g
                for n, src in how.items():
                    if (got := sorted(r for a in self.arts for r in self.read(src, g, a))) != want:
                        wrong = {"backend": b, "inputs": i, "via": n, "want": want, "got": got}
                if was != self.x:
                    self.put(was)
        return wrong


REFUSED, MISSING = {"res": "refused"}, {"res": "missing"}


def preset(c):
    """One graph with the literal and others next to it."""
    from arti import Artifact, Fingerprint, Graph, PartitionKey
    from arti import types as at
    from arti.partitions import Int64Field
    from arti.storage.literal import StringLiteral
    from arti.views import python as vp
    d, x, ops = defs(), c["d"], c["ops"]
    kw = {} if x["preset"] == "unset" else {"value": x["preset"]}
    if x["id"] == "own":
        kw["id"] = "own/{names}/{partition_key_spec}/{input_fingerprint}.x"
    produced, part = x["role"] == "produced", x["part"]
    value = json.loads(x["preset"]) if kw.get("value") else None
    from arti.types.python import python_type_system
    typ = at.Int64() if produced or value is None or value == {"k": {"1": []}} else python_type_system.to_artigraph(
        list[int] if type(value) is list else type(value), hints={})
    with Scratch() as dir:
        from arti.storage.local import LocalFile
        for k in (0, 1):
            (dir / f"xs{k}.json").write_text(json.dumps([{"k": k, "v": 5 * k}]))
        art = (d.Part if part else d.Lit)(storage=StringLiteral(**kw)) if produced or part else Artifact(type=typ, storage=StringLiteral(**kw))
        with Graph(name="g") as g:
            g.artifacts.x = d.X.cast(3)
            g.artifacts.xs = d.Part(storage=LocalFile(path=str(dir / "xs{k.value}.json")))
            g.artifacts.side = 5
            g.artifacts.a.lit = (d.MakeQ(x=g.artifacts.xs).out(art) if part else d.MakeP(x=g.artifacts.x).out(art)) if produced else art
        lit = g.artifacts.a.lit
        view = (vp.List if part else vp.Int)(mode="READ", type=lit.type, artifact_class=type(lit))
        out = []
        for op in ops:
            try:
                if op in ("read", "snapshot read"):
                    got = (g if op == "read" else g.snapshot()).read(lit, view=view)
                    if produced:
                        got = sorted(got, key=lambda r: r["k"]) if part else got
                        out.append({"res": "built"} if got == ([{"k": 0, "v": 10}, {"k": 1, "v": 15}] if part else 13) else {"wrong": repr(got)})
                    else:
                        out.append({"res": "value", "is": x["preset"] if json.dumps(got) == json.dumps(json.loads(x["preset"])) else repr(got)})
                elif op == "snapshot":
                    g.snapshot()
                    out.append({"res": "ok"})
                elif op == "build":
                    g.build()
                    out.append({"res": "ok"})
                else:
                    data = [{"k": 1, "v": 99}] if part else 99
                    where = {"input_fingerprint": Fingerprint.from_int(77)} if produced else {}
                    if part:
                        where["partition_key"] = PartitionKey(k=Int64Field(value=1))
                    wview = (vp.List if part else vp.Int)(mode="WRITE", type=lit.type, artifact_class=type(lit))
                    g.write(data, artifact=lit, **where, **({"view": wview} if lit.type == at.Int64() else {}))
                    out.append({"res": "ok"})
            except FileNotFoundError:
                out.append(MISSING)
            except ValueError:
                out.append(REFUSED)
            if g.read(g.artifacts.side, annotation=int) != 5:
                return "the literal next to it changed"
        return out


def run(check):
    items = tables.cases(check, "Literals", consts=f"Depth = {check.pick(2, 4)}", workers=6)
    tables.compare(check, items, preset, what="presets")
    configs = [("P S", "A", "file", "2"), ("P S", "A", "literal", ""), ("Q", "A", "file", "2"), ("P", "AB", "literal", ""), ("P", "AB", "file", "")]
    for arts, bes, kind, others in configs:
        arts = arts.split()
        quote = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
        r = tlc.run("Literal", workers=4, heap="4g", cfg_text=CFG.format(arts=quote(arts), backends=quote(bes), others="{" + others + "}"))
        check.spec(r, what=f"Literal {arts} {bes} {others}")
        es = [canon(e) for e in r.get("E")]
        lts = LTS(es)
        init = key(canon({"s": {"be": "A", "x": 0, "stored": {b: [] for b in bes}, "linked": {b: [] for b in bes}}, "t": es[0]["t"], "a": {"op": ""}})["s"])
        assert init in lts.out
        replay_lts(check, lts, [init], lambda: LiteralAdapter(arts, kind, [0, 1] + [int(o) for o in others.split()]), max_len=40, limit=check.pick(120, None), what=f"{arts} {bes} {kind}")
        if not check.thorough:
            check.exhaustive = False
