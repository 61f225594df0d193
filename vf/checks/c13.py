"""C13: storage templates resolve exactly and keep distinct data apart (spec/Templates.tla)."""
import random
from typing import Annotated

from arti import Artifact, Graph, Type, producer
from arti.formats.json import JSON
from arti.producers import ProducerOutput
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Int64

from vf import storages, tables
from vf.replay import key


class Num(Artifact):
    type: Type = Int64()


def one():
    return 1


def _build(x):
    return x


_build.__annotations__ = {"x": Annotated[int, Num], "return": Annotated[int, Num]}
Some = producer(name="Some")(_build)


def output():
    return ProducerOutput(producer=Some(x=Num(format=JSON(), storage=StringLiteral(id="some", value="1"))), position=0)


def assigned(i, storage):
    """The storage of an artifact once assigned to a graph."""
    kw = {"producer_output": output()} if i["produced"] else {}
    art = Artifact(type=storages.type_of(i["fields"]), format=JSON(extension=i["ext"]), storage=storage, **kw)
    with Graph(name=i["graph"], path_tags=dict(i["tags"])) as g:
        g.artifacts[".".join(i["names"])] = art
    (got,) = [a for _, a in g.artifacts.walk()]
    return got.storage


ROOT = "/nowhere/"


def resolve(c):
    i, got = c["i"], {}
    rng = random.Random(key(c))
    try:
        s = assigned(i, LocalFile(path=ROOT + c["tpl"]))
        got["path"], got["assigned"] = s.path.removeprefix(ROOT), True
    except ValueError as e:
        if "input_fingerprint" not in str(e):
            raise
        got["assigned"] = False
    # The same facts, told in any order and any portions
    names = i["names"]
    facts = {"graph_name": i["graph"], "path_tags": "/".join(f"{k}={v}" for k, v in i["tags"]), "names": "/".join(names),
             "name": names[-1], "extension": i["ext"], "partition_key_spec": spec(i["fields"])}
    if not i["produced"]:
        facts["input_fingerprint"] = ""
    for n in range(4):
        todo = rng.sample(sorted(facts), len(facts))
        s = [LocalFile(path=ROOT + c["tpl"]), StringLiteral(id=ROOT + c["tpl"]), StringLiteral(id=ROOT + c["tpl"], value=c["tpl"]),
             GCSFile(bucket="b", path=ROOT + c["tpl"])][n]
        before = s.model_copy()
        r = s
        while todo:
            some = [todo.pop() for _ in range(rng.choice([1, 1, 2, 3])) if todo]
            r = r.resolve(**{k: facts[k] for k in some})
        if s != before:
            return {"changed": repr(s)}
        if type(r) is not type(s) or getattr(r, "value", None) != getattr(s, "value", None) or getattr(r, "bucket", "b") != "b":
            return {"mangled": repr(r)}
        path = (r.id if n in (1, 2) else r.path).removeprefix(ROOT)
        if got.setdefault("path", path) != path:
            return {"one order": got["path"], "another": path, "of": repr(s)}
    return got


def spec(fields):
    return "/".join("d_Y={d.Y}/d_m={d.m:02}/d_d={d.d:02}" if f == "d" else f"{f}_value={{{f}.value}}" for f in fields)


def locate(c):
    i = c["i"]
    kw = {"input_fingerprint": storages.fingerprint(c["fp"]), "partition_key": storages.pkey(c["k"])}
    local = assigned(i, LocalFile.rooted_at(ROOT)).generate_partition(**kw)
    literal = assigned(i, StringLiteral()).generate_partition(**kw)
    gcs = assigned(i, GCSFile(bucket="b")).generate_partition(**kw)
    default = assigned(i, LocalFile()).generate_partition(**kw)
    if not default.path.endswith(local.path.removeprefix(ROOT)) or literal.id != local.path.removeprefix(ROOT):
        return tables.Wrong({"different defaults": [default.path, literal.id, local.path]})
    for p in (local, literal, gcs):
        if p.partition_key != kw["partition_key"] or p.input_fingerprint != kw["input_fingerprint"]:
            return tables.Wrong({"mislabelled": repr(p)})
    return {"path": local.path.removeprefix(ROOT), "gcs": gcs.path}


def refused(check):
    """A partition needs exactly what its template asks for."""
    from arti import Fingerprint, PartitionKey
    one = Fingerprint.from_int(1)
    for tpl, fields, k, fp, ok in [
        ("x/{input_fingerprint}", [], None, one, True), ("x/{input_fingerprint}", [], None, None, False), ("x", [], None, one, False),
        ("x", [], None, None, True), ("x/{i.value}", ["i"], {"i": 1}, None, True), ("x/{i.value}", ["i"], None, None, False),
        ("x", [], {"i": 1}, None, False), ("x/{i.value}/{input_fingerprint}", ["i"], {"i": 1}, None, False),
        ("x/{i.value}/{input_fingerprint}", ["i"], {"i": 1}, one, True), ("x/{i.value}/{input_fingerprint}", ["i"], None, one, False),
        ("x/{i.value}", ["i"], {"j": 1}, None, False),
    ]:
        for s in (LocalFile(path=tpl), StringLiteral(id=tpl), GCSFile(bucket="b", path=tpl)):
            st = Artifact(type=storages.type_of(fields), format=JSON(), storage=s).storage
            try:
                st.generate_partition(partition_key=storages.pkey(k), input_fingerprint=fp)
                got = True
            except (ValueError, KeyError):
                got = False
            if got != ok:
                check.violation(f"partition of {tpl} for {k}, {fp} {'refused' if ok else 'accepted'}", {"storage": repr(st)})
            check.count("partition_requests")


def run(check):
    items = tables.cases(check, "Templates", inv="ResolveLaws", init="ResolveInit", emit="ResolveEmit", consts="Deep = FALSE", what="Templates: resolving")
    tables.compare(check, items, resolve, what="templates", same=lambda w, g: {**w, "path": w["path"]} == g, name=lambda c: c["tpl"])
    items = tables.cases(check, "Templates", inv="DataLaws", init="DataInit", emit="DataEmit", consts="Deep = FALSE", what="Templates: default locations")
    tables.compare(check, [{"c": x["c"], "want": {"path": x["want"]["path"], "gcs": x["want"]["gcs"]}} for x in items], locate, what="locations")
    for which in ("path", "gcs"):
        tables.classes(check, [{"c": x["c"], "want": x["want"]["id"]} for x in items], lambda c: got if isinstance(got := locate(c), tables.Wrong) else got[which], what=f"distinct_{which}")
    refused(check)
