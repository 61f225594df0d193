"""C24: views are resolved from hints, and accept the artifacts they can read or write (spec/Views.tla)."""
import datetime as dt
import functools
import itertools
from collections.abc import Sequence
from typing import Annotated, Any

from vf import tables

REFUSED = {"res": "refused"}


class X: pass
class XSub(X): pass
class F: pass


FVAL = F()
ROOTS = {"int": int, "str": str, "bool": bool, "float": float, "list": list, "list[int]": list[int], "list[bool]": list[bool], "list[str]": list[str], "None": None, "NoneType": type(None), "int|None": int | None, "Any": Any,
         "X": X, "F": F, "date": dt.date, "datetime": dt.datetime, "dict[str,int]": dict[str, int], "list[list[int]]": list[list[int]], "int|str": int | str, "XSub": XSub}


@functools.cache
def defs():
    from arti import Artifact, Format, Storage, StoragePartition, View
    from arti import types as at
    from arti.formats.json import JSON
    from arti.formats.pickle import Pickle
    from arti.io import register_reader, register_writer
    from arti.storage.google.cloud.storage import GCSFile
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile, LocalFilePartition
    from arti.types import Type, TypeAdapter, TypeSystem
    from arti.types.python import python_type_system
    from arti.views import python as vp

    class Plain(Artifact): pass
    class Sub(Plain): pass
    class AInt(Artifact):
        type: Type = at.Int64()
    class AList(Artifact):
        type: Type = at.List(element=at.Int64())

    def system(name, kinds, value):
        ts = TypeSystem(key=name)
        for k in kinds:
            ts.register_adapter(type(f"{name}{k.__name__}", (TypeAdapter,), {"artigraph": k, "to_system": classmethod(lambda cls, t, *, hints, type_system: value)}))
        return ts

    own = system("own", [at.Int64, at.String], X)

    class Low(View):
        priority = -1
        python_type, type_system = X, own
        artifact_class: type[Artifact] = AInt

    class Own(View):
        python_type, type_system = X, own

    class Inst(View):
        python_type, type_system = F, system("inst", [at.Float64], FVAL)

    class Strs(vp.PythonBuiltin):
        python_type = list[str]

    class JSONSub(JSON): pass

    class Other(Format):
        type_system = python_type_system

    class LocalSub(LocalFile): pass

    class StorePartition(StoragePartition):
        path: str

    class Store(Storage[StorePartition]):
        path: str = "x"

        def discover_partitions(self, input_fingerprints=()):
            return ()

    @register_reader
    def r(type_: at.String, format: JSON, storage_partitions: Sequence[LocalFilePartition], view: Own) -> Any: ...

    @register_writer
    def w1(data: F, type_: Type, format: Pickle, storage_partition: LocalFilePartition, view: Inst) -> None: ...

    @register_writer
    def w2(data: int, type_: Type, format: Other, storage_partition: LocalFilePartition, view: vp.PythonBuiltin) -> None: ...

    @register_writer
    def w3(data: Any, type_: Type, format: JSON, storage_partition: StorePartition, view: vp.Int) -> None: ...

    T = {"Int64": at.Int64(), "Int64?": at.Int64(nullable=True), "Boolean": at.Boolean(), "String": at.String(), "Float64": at.Float64(), "Null": at.Null(), "List(Int64)": at.List(element=at.Int64()),
         "List(Boolean)": at.List(element=at.Boolean()), "List(String)": at.List(element=at.String()), "Int32": at.Int32(), "Date": at.Date(), "Timestamp": at.Timestamp(precision="microsecond"), "Map(String,Int64)": at.Map(key=at.String(), value=at.Int64()),
         "List(List(Int64))": at.List(element=at.List(element=at.Int64())), "List(Int64?)": at.List(element=at.Int64(nullable=True))}
    V = {"Int": vp.Int, "List": vp.List, "Null": vp.Null, "Str": vp.Str, "Float": vp.Float, "Date": vp.Date, "Datetime": vp.Datetime, "Dict": vp.Dict, "Own": Own, "Low": Low, "Inst": Inst, "Strs": Strs}
    A = {"Plain": Plain, "Sub": Sub, "AInt": AInt, "AList": AList, "Artifact": Artifact}
    FM = {"JSON": JSON, "JSONSub": JSONSub, "Pickle": Pickle, "Other": Other}
    S = {"Local": lambda: LocalFile(path="/x"), "LocalSub": lambda: LocalSub(path="/x"), "Literal": StringLiteral, "GCS": lambda: GCSFile(bucket="b", path="x"), "Store": Store}
    return T, V, A, FM, S


def hints(c):
    from arti import View
    T, V, A, _, _ = defs()
    extra = [d[c[k]] for k, d in (("view", V), ("type", T), ("class", A)) if c[k] != "-"]
    if c["dup"]:
        extra.append({"views": V["Str"], "types": T["Boolean"] if c["type"] != "Boolean" else T["String"], "classes": A["Sub"]}[c["dup"]])
    extra.append("something else")
    root, got = ROOTS[c["root"]], None
    orders = list(itertools.permutations(extra)) if len(extra) < 4 else [extra, extra[::-1], extra[1:] + extra[:1]]
    ways = [Annotated[(root, *e)] for e in orders]
    if len(extra) > 1:
        ways.append(Annotated[(Annotated[(root, *extra[:1])], *extra[1:])])
    else:
        ways.append(root)
    for mode, hint in zip(itertools.cycle(("READ", "WRITE", "READWRITE")), ways):
        try:
            v = View.from_annotation(hint, mode=mode)
            if v.mode != mode:
                return "another mode"
            res = {"res": "ok", "view": next(k for k, x in V.items() if x is type(v)), "class": next(k for k, x in A.items() if x is v.artifact_class), "type": next((k for k, x in T.items() if x == v.type), repr(v.type))}
        except (ValueError, NotImplementedError):
            res = REFUSED
        if got not in (None, res):
            return {"hint": repr(hint), "got": res, "other": got}
        got = res
    return got


def pairs(c):
    T, V, A, FM, S = defs()
    try:
        view = V[c["view"]](mode=c["mode"], artifact_class=A[c["vclass"]], type=T[c["vtype"]])
    except ValueError:
        return {"res": "no view"}
    art = A[c["class"]](type=T[c["type"]], format=FM[c["format"]](), storage=S[c["storage"]]())
    try:
        view.check_artifact_compatibility(art)
        return {"res": "ok"}
    except ValueError:
        return REFUSED


def run(check):
    defs()
    for which, fn in (("hints", hints), ("artifacts", pairs)):
        items = tables.cases(check, "Views", consts=f'Which = "{which}"\n Deeper = TRUE', workers=6, what=f"Views: {which}")
        tables.compare(check, items, fn, what=which)
