"""C06: snapshot ids identify graph structure plus raw contents."""
import json
import os
import pickle

from typing import Annotated

from arti import Annotation, Artifact, Type, producer
from arti.types import Collection, Int32, Int64, Struct
from arti.versions import SemVer
from vf import elsewhere, engine, tables
from vf.core import ROOT, Scratch



class Note(Annotation):
    x: int


class Num(Artifact):
    type: Type = Int64()


class Num32(Artifact):
    type: Type = Int32()


class Rows(Artifact):
    type: Type = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))


C = {"Num": Num, "Num32": Num32, "Rows": Rows, "Note": Note}


def _define():
    for name in ("P", "P2"):
        for num in (Num, Num32):
            for ver in (1, 2):
                def build(a, b):
                    return a + sum(r["v"] for r in b), a
                build.__annotations__ = {"a": Annotated[int, num], "b": Annotated[list, Rows],
                                         "return": tuple[Annotated[int, Num], Annotated[int, Num]]}
                cls = producer(name=name, version=SemVer(major=ver, minor=0, patch=0))(build)
                cls.__qualname__ = f"{name}_{num.__name__}_{ver}"
                cls.__module__ = __name__
                C[name, num, ver] = globals()[cls.__qualname__] = cls
    for name in ("Q", "Q2"):
        def build(x):
            return 2 * x
        build.__annotations__ = {"x": Annotated[int, Num], "return": Annotated[int, Num]}
        cls = producer(name=name)(build)
        cls.__qualname__, cls.__module__ = name, __name__
        C[name] = globals()[name] = cls


_define()
TAGS = {"none": {}, "t1": {"t": "1"}, "t2": {"t": "2"}, "t1u1": {"t": "1", "u": "1"}}


def graph(c, backend=None):
    from arti import Graph
    from arti.formats.json import JSON
    from arti.formats.pickle import Pickle
    from arti.storage.local import LocalFile
    num = C["Num32"] if c["adef"] == "int32" else C["Num"]
    fmt = Pickle() if c["adef"] == "pickle" else JSON()
    notes = (C["Note"](x=1),) if c["adef"] == "annotated" else ()
    A = lambda **k: num(format=fmt, storage=k.get("storage") or LocalFile.rooted_at("data"), annotations=notes)
    plain = lambda: C["Num"](format=JSON(), storage=LocalFile.rooted_at("data"))
    tags = TAGS[c["tags"]]
    if c["order"]:
        tags = tags if len(tags) < 2 else {"t": "1", "u": "1"}
    kw = {} if backend is None else {"backend": backend}
    g = Graph(name=c["name"], path_tags=tags, **kw)
    a_def = []

    def define_a():
        g.artifacts[c["akey"]] = A()

    def define_b():
        g.artifacts.b = C["Rows"](format=JSON(), storage=LocalFile.rooted_at("data"))

    def place():
        return LocalFile.rooted_at("data")._visit_graph(g)._visit_names(tuple(c["akey"].split(".")))._visit_input_fingerprint(None)

    def define_z():
        if c["z"] == "own":
            g.artifacts.z = A()
        # z is kept where a is: an equal artifact, or one differing in an annotation only
        if c["z"] == "shared":
            g.artifacts.z = A(storage=place())
        if c["z"] == "alike":
            g.artifacts.z = num(format=fmt, storage=place(), annotations=(C["Note"](x=5),))

    with g:
        if c["order"] == 1:
            define_b()
        if c["order"] == 2:
            define_z()
        define_a()
        if c["order"] != 2:
            define_z()
        if c["order"] != 1:
            define_b()
        if c["past"] == "early":
            g.fingerprint, list(g.artifacts.walk()), g.artifacts.get("zz"), "q.r" in g.artifacts
        P = C[c["pcls"], num, c["pver"]](a=g.artifacts[c["akey"]], b=g.artifacts.b)
        o1, o2 = P.out(plain(), plain())
        if c["wire"] == "dc":
            o1, o2 = o2, o1
        if c["keep"] == "both" and c["order"] == 1:
            g.artifacts.d = o2
        g.artifacts.c = o1
        if c["keep"] == "both" and c["order"] != 1:
            g.artifacts.d = o2
        g.artifacts.e = C[c["ehow"]](x=g.artifacts[c["src"]]).out(plain())
    return g


def write(g, art, v, fmt="json", k=None):
    from arti import PartitionKey
    from arti.partitions import Int64Field
    pk = PartitionKey() if k is None else PartitionKey(k=Int64Field(value=k))
    p = art.storage.generate_partition(partition_key=pk)
    os.makedirs(os.path.dirname(p.path), exist_ok=True)
    with open(p.path, "wb") as f:
        f.write(pickle.dumps(v) if fmt == "pickle" else json.dumps(v).encode())
    return p.path


def snapshot_id(c):
    from arti import Fingerprint  # noqa: F401
    cwd = os.getcwd()
    with Scratch() as d:
        os.chdir(d)
        try:
            from arti.backends.memory import MemoryBackend
            backend = MemoryBackend() if c["past"] in ("used", "connection") else None
            if c["past"] == "used":
                other = {**c, "name": "other", "past": "none", "av": 2, "b1": 1}
                og = graph(other, backend)
                fill(og, other)
                og.build()
            g = graph(c, backend)
            fill(g, c)
            if c["past"] in ("pickled", "copy"):
                g = pickle.loads(pickle.dumps(g)) if c["past"] == "pickled" else g.model_copy()
            try:
                if c["past"] == "built":
                    g.build()
                if c["past"] == "reverted":
                    write(g, g.artifacts.b, [{"v": 9}], k=7)
                    g.build()
                    os.unlink(g.artifacts.b.storage.generate_partition(partition_key=pkey(7)).path)
                if c["past"] == "connection":
                    with g.backend.connect() as conn:
                        return str(int(g.snapshot(connection=conn).id))
                return str(int(g.snapshot().id))
            except ValueError as e:
                if "found for" in str(e):
                    return "refused"
                raise
        finally:
            os.chdir(cwd)


def pkey(k):
    from arti import PartitionKey
    from arti.partitions import Int64Field
    return PartitionKey(k=Int64Field(value=k))


def fill(g, c):
    fmt = "pickle" if c["adef"] == "pickle" else "json"
    if c["av"]:
        write(g, g.artifacts[c["akey"]], c["av"], fmt)
    if c["z"] == "own":
        write(g, g.artifacts.z, 1, fmt)
    for k in (1, 2):
        if c[f"b{k}"]:
            write(g, g.artifacts.b, [{"v": c[f"b{k}"]}], k=k)


def run(check):
    items = tables.cases(check, "SnapshotId", consts=f"Dist = {check.pick(3, 4)}", workers=8)
    tables.classes(check, items, snapshot_id, what="configurations")
    some = [x["c"] for x in check.rng.sample(items, check.pick(60, 400))]
    elsewhere.compare(check, "vf.checks.c06", "snapshot_id", some, tables._pmap(snapshot_id, some), what="configurations")
    engine.campaign(check, what="histories", n=check.pick(250, 3000), ops=check.pick(8, 14), vers=0.2, decoy=0.3, rewired=0.4,
                    lit=0.1, values=(1, 2), keys=(1, 2))
