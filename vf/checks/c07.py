"""C07: reads return exactly the asked-for data or say that there is none."""
from vf import engine, tables
from vf.core import Scratch


def read_case(c):
    from arti import Artifact, Graph, PartitionKey, View, producer
    from arti.formats.json import JSON
    from arti.internal.mappings import frozendict
    from arti.partitions import Int64Field
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile
    Un, Co = engine.artifact_classes()
    art, n = c["art"], c["stored"]
    keys = list(range(1, n + 1))

    with Scratch() as d:
        cls = Co if art["part"] else Un
        if art["lit"]:
            storage = StringLiteral()
            if art["raw"] and n:
                storage = StringLiteral(value='[{"v": 1}]')
        else:
            storage = LocalFile.rooted_at(d)
        a = cls(format=JSON(), storage=storage)
        ns = {"n": n}

        def m(x):
            return frozendict({PartitionKey(k=Int64Field(value=k)): frozendict(x=x) for k in keys})

        with Graph(name="g") as g:
            g.artifacts.seed = Un(format=JSON(), storage=StringLiteral(value='[{"v": 1}]'))
            # A neighbour with data of its own
            g.artifacts.other = Un(format=JSON(), storage=LocalFile.rooted_at(d))
            if art["raw"]:
                g.artifacts.a = a
            else:
                g.artifacts.a = maker(art["part"], tuple(keys))(i=g.artifacts.seed).out(a)
        g.write([{"v": 77}], artifact=g.artifacts.other)
        if art["raw"]:
            if not art["lit"]:
                for k in keys:
                    g.write([{"v": k}], artifact=g.artifacts.a,
                            partition_key=PartitionKey(k=Int64Field(value=k)) if art["part"] else PartitionKey())
            s = g.snapshot() if c["through"] == "snapshot" else None
        else:
            s = g.snapshot()
            if n:
                s.build()
            if c["through"] == "graph":
                s = None
        kw = {}
        if c["asked"] in ("annotation", "both"):
            kw["annotation"] = list if c["fits"] else int
        if c["asked"] in ("view", "both"):
            kw["view"] = View.get_class_for(list)(artifact_class=cls, type=a.type, mode="READ")
        if c["explicit"]:
            parts = ()
            if c["explicit"] == 2:
                with g.backend.connect() as conn:
                    parts = g.artifacts.a.storage.discover_partitions() if art["raw"] else \
                        conn.read_artifact_partitions(g.artifacts.a)
                parts = tuple(sorted(parts, key=lambda p: [f.value for f in p.partition_key.values()])[:1])
            kw["storage_partition_snapshots"] = parts
        try:
            rows = (s or g).read(g.artifacts.a, **kw)
        except FileNotFoundError:
            return "missing"
        except ValueError:
            return "refused"
        vals = sorted(r["v"] for r in rows)
        if c["explicit"] == 2 and vals == [1]:
            return "first"
        if vals == (keys if art["part"] else [1]):
            return "all"
        return f"other: {vals}"


_MK = {}


def maker(part, keys):
    if (part, keys) not in _MK:
        from typing import Annotated

        from arti import PartitionKey, StoragePartitions, producer
        from arti.internal.mappings import frozendict
        from arti.partitions import Int64Field
        Un, Co = engine.artifact_classes()
        seen = []
        if not part:
            def build(i):
                return [{"v": 1}]
            build.__annotations__ = {"i": Annotated[list, Un], "return": Annotated[list, Un]}
            _MK[part, keys] = producer(name="One")(build)
        else:
            state = {"n": 0}

            def build(i):
                state["n"] = state["n"] % len(keys) + 1
                return [{"v": keys[state["n"] - 1]}]
            build.__annotations__ = {"i": Annotated[list, Un], "return": Annotated[list, Co]}

            def map_(i):
                return frozendict({PartitionKey(k=Int64Field(value=k)): frozendict(i=i) for k in keys})
            map_.__annotations__ = {"i": StoragePartitions}
            _MK[part, keys] = producer(name="Many", map=map_)(build)
    return _MK[part, keys]


def run(check):
    items = tables.cases(check, "Reads")
    tables.compare(check, items, read_case, what="read_requests")
    check.spec(engine.tlc.run("MCEngine", workers=8, cfg_text=engine.MC_CFG.format(
        programs="MCPrograms", ops=2, inv="TriedIsSound BuiltIsFresh")), what="Engine: 7 programs, 2 operations")
    engine.campaign(check, what="random_histories", n=check.pick(250, 4000), ops=check.pick(7, 12), faults=0.25,
                    decoy=0.7, vers=0.15, old=0.3, part=0.7, lit=0.25)
    engine.campaign(check, what="missing_data", n=check.pick(80, 1500), ops=6, decoy=0.3, part=1.0, keys=(1, 2),
                    fresh=0.02, rebuild=0.02, vers=0.02, swap=0.02)
