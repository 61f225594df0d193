"""Types.tla's terms as real types, hints, schemas, fields and arrays, and back again."""
from __future__ import annotations

import collections.abc as abc
import datetime as dt
import decimal
import enum
import types as pytypes
import typing
import warnings
from typing import Any, Callable, Literal, Optional, TypedDict, TypeVar, Union

from arti import types as at

from vf import tables
from vf.replay import key, parallel

ERR = {"err": True}
KINDS = {"boolean": at.Boolean, "string": at.String, "null": at.Null, "date": at.Date, "binary": at.Binary, "datetime": at.DateTime, "time": at.Time, "timestamp": at.Timestamp,
         "geography": at.Geography, "enum": at.Enum, "list": at.List, "set": at.Set, "map": at.Map, "struct": at.Struct, "collection": at.Collection}
for _k in ("Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float16", "Float32", "Float64"):
    KINDS[_k.lower()] = getattr(at, _k)
NAMES = {v: k for k, v in KINDS.items()}
VALUES = {"s:a": "a", "s:b": "b", "s:c": "c", "i:1": 1, "i:2": 2, "i:3": 3, "b:1": True, "b:0": False, "y:x": b"x"}


def lit(v):
    return next((n for n, x in VALUES.items() if type(x) is type(v) and x == v), f"?{v!r}")


def text(x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return repr(x)[:1500]


def fields(fs, fn):
    return {f["n"]: fn(f["t"]) for f in fs}


def build(t):
    k = t["k"]
    kw: dict[str, Any] = {"nullable": t["null"], "description": t["d"] or None}
    if k == "binary":
        kw["byte_size"] = None if t["size"] == -1 else t["size"]
    elif k in ("datetime", "time", "timestamp"):
        kw["precision"] = t["p"]
    elif k == "geography":
        kw["format"] = t["format"] or None
    elif k == "enum":
        kw |= {"name": t["name"], "type": build(t["type"]), "items": [VALUES[v] for v in t["items"]]}
    elif k in ("list", "set"):
        kw["element"] = build(t["e"])
    elif k == "map":
        kw |= {"key": build(t["mk"]), "value": build(t["mv"])}
    elif k == "struct":
        kw |= {"name": t["name"], "fields": fields(t["fs"], build)}
    elif k == "collection":
        kw |= {"name": t["name"], "element": build(t["e"]), "partition_by": tuple(t["pb"]), "cluster_by": tuple(t["cb"])}
    return KINDS[k](**kw)


def term(x):
    if type(x) not in NAMES:
        return f"not a type: {x!r}"
    k = NAMES[type(x)]
    t: dict[str, Any] = {"k": k, "null": x.nullable, "d": x.description or ""}
    if k == "binary":
        t["size"] = -1 if x.byte_size is None else x.byte_size
    elif k in ("datetime", "time", "timestamp"):
        t["p"] = x.precision
    elif k == "geography":
        t["format"] = x.format or ""
    elif k == "enum":
        t |= {"name": x.name, "type": term(x.type), "items": sorted(map(lit, x.items))}
    elif k in ("list", "set"):
        t["e"] = term(x.element)
    elif k == "map":
        t |= {"mk": term(x.key), "mv": term(x.value)}
    elif k == "struct":
        t |= {"name": x.name, "fs": [{"n": n, "t": term(f)} for n, f in x.fields.items()]}
    elif k == "collection":
        t |= {"name": x.name, "e": term(x.element), "pb": list(x.partition_by), "cb": list(x.cluster_by)}
    return t


# ---- Python ----
class Plain:
    pass


class Colour(enum.Enum):
    RED = "red"


PY = {"int": int, "bool": bool, "str": str, "float": float, "bytes": bytes, "date": dt.date, "datetime": dt.datetime, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
      "dict": dict, "Mapping": abc.Mapping}
OLD = {"list": typing.List, "tuple": typing.Tuple, "set": typing.Set, "frozenset": typing.FrozenSet, "dict": typing.Dict, "Mapping": typing.Mapping}


def odd_hint(c):
    from arti.internal.mappings import frozendict
    return {"Any": Any, "object": object, "complex": complex, "list": list, "dict": dict, "tuple": tuple, "tuple pair": tuple[int, str], "tuple one": tuple[int], "int|str": int | str,
            "int|str|None": Union[int, str, None], "list|None of any": Optional[list], "TypeVar": TypeVar("T"), "Callable": Callable[[int], int], "Literal|int": Union[Literal["a"], int],
            "Sequence": abc.Sequence[int], "Iterable": abc.Iterable[int], "type": type[int], "time": dt.time, "timedelta": dt.timedelta, "Decimal": decimal.Decimal, "class": Plain,
            "Literal a|None": Literal["a", None], "enum literal": Literal[Colour.RED], "Set": abc.Set[int], "ellipsis": ..., "value": 5, "frozendict": frozendict}[c]


def py_build(h, old=False):
    import pydantic
    g = h["g"]
    sub = lambda x: py_build(x, old)
    cs = OLD if old else PY
    if g == "class":
        return PY[h["c"]]
    if g == "none":
        return None
    if g == "of":
        e = sub(h["a"])
        return cs[h["c"]][e, ...] if h["c"] == "tuple" else cs[h["c"]][e]
    if g == "map":
        return cs[h["c"]][sub(h["a"]), sub(h["b"])]
    if g == "opt":
        e = sub(h["h"])
        if old:
            return Optional[e]
        try:
            return e | None
        except TypeError:
            return Union[None, e]
    if g == "lit":
        return Literal[tuple(VALUES[v] for v in (h["vs"][::-1] if old else h["vs"]))]
    if g == "litu":
        return Union[Literal[tuple(VALUES[v] for v in h["vs"])], Literal[tuple(VALUES[v] for v in h["ws"])]]
    if g in ("td", "tdpart"):
        # (what is said about a field besides its type makes no difference)
        return TypedDict(h["n"], {n: typing.Required[typing.Annotated[f, "a note"]] if old and g == "td" else f for n, f in fields(h["fs"], sub).items()}, total=g == "td")
    if g == "model":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return pydantic.create_model(h["n"], __config__={"arbitrary_types_allowed": True}, **{n: (type(None) if f is None else typing.Annotated[f, "a note"] if old else f, None if old else ...) for n, f in fields(h["fs"], sub).items()})
    return odd_hint(h["c"])


def py_term(h):
    import pydantic
    if h is None or h is type(None):
        return {"g": "none"}
    for n in ("int", "bool", "str", "float", "bytes", "date", "datetime"):
        if h is PY[n]:
            return {"g": "class", "c": n}
    o, args = typing.get_origin(h), typing.get_args(h)
    if o in (list, set, frozenset):
        return {"g": "of", "c": o.__name__, "a": py_term(args[0])}
    if o is tuple and len(args) == 2 and args[1] is ...:
        return {"g": "of", "c": "tuple", "a": py_term(args[0])}
    if o is dict:
        return {"g": "map", "c": "dict", "a": py_term(args[0]), "b": py_term(args[1])}
    if o in (Union, pytypes.UnionType) and len(args) == 2 and type(None) in args:
        return {"g": "opt", "h": py_term(next(a for a in args if a is not type(None)))}
    if o is Literal:
        return {"g": "lit", "vs": sorted(map(lit, args))}
    if typing.is_typeddict(h):
        if h.__total__ is not True or h.__optional_keys__:
            return f"keys may be missing: {h!r}"
        return {"g": "td", "n": h.__name__, "fs": [{"n": n, "t": py_term(f)} for n, f in typing.get_type_hints(h).items()]}
    if isinstance(h, type) and issubclass(h, pydantic.BaseModel):
        return {"g": "model", "n": h.__name__, "fs": [{"n": n, "t": py_term(f.annotation)} for n, f in h.model_fields.items()]} if all(f.is_required() for f in h.model_fields.values()) else f"defaults: {h!r}"
    return f"not a hint: {h!r}"


# ---- Arrow ----
def pa_build(x, old=False):
    import json
    import pyarrow as pa
    a = x["a"]
    if a == "bool":
        return pa.bool_()
    if a == "fixed":
        return pa.binary(x["size"])
    if a == "timestamp":
        return pa.timestamp(x["unit"], x["tz"] or None)
    if a in ("time32", "time64"):
        return getattr(pa, a)(x["unit"])
    if a == "list":
        return pa.list_(pa_build(x["e"]))
    if a == "map":
        return pa.map_(pa_build(x["mk"]), pa_build(x["mv"]))
    if a in ("struct", "schema"):
        fs = [pa.field(f["n"], pa_build(f["t"]), nullable=f["null"], metadata={"note": "x"} if old else None) for f in x["fs"]]
        if a == "struct":
            return pa.struct(fs)
        m = x["meta"]
        meta = {} if "none" in m else {"artigraph": json.dumps({"name": m["name"], "partition_by": m["pb"], "cluster_by": m["cb"]})}
        if old:
            meta["else"] = "y"
        return pa.schema(fs).with_metadata(meta or None)
    odd = {"decimal128": lambda: pa.decimal128(5, 2), "large_list": lambda: pa.large_list(pa.int8()), "dictionary": lambda: pa.dictionary(pa.int8(), pa.string()), "duration": lambda: pa.duration("s"),
           "fixed list": lambda: pa.list_(pa.int8(), 2), "dense union": lambda: pa.dense_union([pa.field("a", pa.int8())]), "interval": lambda: pa.month_day_nano_interval(), "int": lambda: int,
           "run end": lambda: pa.run_end_encoded(pa.int16(), pa.int8()), "list_view": lambda: pa.list_view(pa.int8())}
    return odd[a]() if a in odd else getattr(pa, a)()


def pa_term(x):
    import json
    import pyarrow as pa
    if isinstance(x, pa.Schema):
        if set(x.metadata or {}) != {b"artigraph"}:
            return f"metadata: {x.metadata}"
        m = json.loads(x.metadata[b"artigraph"])
        return {"a": "schema", "fs": [pa_field(f) for f in x], "meta": {"name": m["name"], "pb": m["partition_by"], "cb": m["cluster_by"]}}
    t = pa.types
    if not isinstance(x, pa.DataType):
        return f"not an Arrow type: {x!r}"
    if t.is_boolean(x):
        return {"a": "bool"}
    if t.is_fixed_size_binary(x):
        return {"a": "fixed", "size": x.byte_width}
    if t.is_timestamp(x):
        return {"a": "timestamp", "unit": x.unit, "tz": x.tz or ""}
    if t.is_time(x):
        return {"a": "time32" if t.is_time32(x) else "time64", "unit": x.unit}
    if t.is_list(x):
        return {"a": "list", "e": pa_term(x.value_type)}
    if t.is_map(x):
        return {"a": "map", "mk": pa_term(x.key_type), "mv": pa_term(x.item_type)}
    if t.is_struct(x):
        return {"a": "struct", "fs": [pa_field(x.field(i)) for i in range(x.num_fields)]}
    for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "string", "null", "date32", "date64", "binary"):
        if x == getattr(pa, n)():
            return {"a": n}
    return f"another Arrow type: {x!r}"


def pa_field(f):
    return {"n": f.name, "t": pa_term(f.type), "null": f.nullable}


# ---- BigQuery ----
def bq_build(x, old=False):
    from google.cloud import bigquery as bq
    if x["b"] != "table":
        spelled = x["b"].lower() if old and not x["fs"] else x["b"]
        kw = {"description": x["d"]} if x["d"] else {}
        return bq.SchemaField(x["n"], spelled, mode=x["mode"], fields=[bq_build(f, old) for f in x["fs"]], **kw)
    t = bq.Table(x["n"], schema=[bq_build(f, old) for f in x["fs"]])
    if x["d"]:
        t.description = x["d"]
    if x["odd"] == "range":
        t.range_partitioning = bq.RangePartitioning(field="i", range_=bq.PartitionRange(start=0, end=10, interval=1))
    elif x["odd"] == "ingestion":
        t.time_partitioning = bq.TimePartitioning(type_="DAY")
    elif x["odd"]:
        t.time_partitioning = bq.TimePartitioning(field=x["day"] or None, type_=x["odd"].upper())
    elif x["day"]:
        t.time_partitioning = bq.TimePartitioning(field=x["day"], type_="DAY")
        t.require_partition_filter = x["filter"]
    if x["cb"]:
        t.clustering_fields = x["cb"]
    return t


def bq_term(x):
    from google.cloud import bigquery as bq
    if isinstance(x, bq.Table):
        p = x.time_partitioning
        odd = "range" if x.range_partitioning else "" if not p or p.type_ == "DAY" and p.field else str(p)
        return {"b": "table", "n": f"{x.project}.{x.dataset_id}.{x.table_id}", "d": x.description or "", "fs": [bq_term(f) for f in x.schema], "day": p.field if p else "", "filter": bool(x.require_partition_filter),
                "cb": list(x.clustering_fields or ()), "odd": odd}
    if not isinstance(x, bq.SchemaField):
        return f"not a field: {x!r}"
    return {"b": x.field_type, "n": x.name, "mode": x.mode, "d": x.description or "", "fs": [bq_term(f) for f in x.fields]}


# ---- NumPy and pandas ----
NP_ODD = ("complex64", "complex128", "datetime64", "timedelta64", "void", "longdouble")


def np_type(c):
    import numpy as np
    return {"bool": np.bool_, "str": np.str_, "bytes": np.bytes_, "object": np.object_}.get(c) or getattr(np, c)


def np_build(x, old=False):
    import numpy as np
    import pandas as pd
    p, c = x["np"], x.get("c")
    if p == "scalar":
        return np_type(c)
    if p == "dtype":
        return np.dtype([("a", "i4")]) if c == "structured" else np.dtype("S5" if c == "bytes" else "U5") if c in ("bytes", "str") and old else np.dtype([("a", "S3")]) if c in ("bytes", "str") else np.dtype(np_type(c) if c not in ("datetime64", "timedelta64") else f"{c}[s]")
    if p == "array":
        if c == "structured":
            a = np.zeros(2, dtype=[("a", "i4")])
        elif c == "object":
            a = np.array([object(), 1], dtype=object)
        elif c in ("str", "bytes"):
            a = np.array(["ab", "c"]) if c == "str" else np.array([b"ab", b"c"])
        else:
            a = np.zeros(3 if old else 1, dtype=np_type(c) if c not in ("datetime64", "timedelta64") else f"{c}[s]")
        for _ in range(x["dims"] - 1):
            a = np.array([a, a] if old else [a])
        return a
    if p == "odd":
        return {"int": int, "float": float, "None": None, "list": [1], "str name": "int64", "big endian": np.dtype(">i4"), "0-d": np.array(5), "Int64": pd.Int64Dtype(),
                "mixed objects": np.array([np.int64(1), "a"], dtype=object), "number objects": np.array([np.int64(1), None], dtype=object), "arti": at.Int64()}[c]
    if p == "series":
        return column(c, old)
    if len({f["n"] for f in x["fs"]}) < len(x["fs"]):
        df = pd.concat([column(f["t"], old) for f in x["fs"]], axis=1)
        df.columns = [f["n"] for f in x["fs"]]
        return df
    return pd.DataFrame({f["n"]: column(f["t"], old) for f in x["fs"]})


def column(c, old):
    import pandas as pd
    n = 4 if old else 1
    odd = {"str": lambda: pd.Series(["a", "bc", "", "d"][:n], dtype=object, index=list(range(5, 5 + n)) if old else None), "datetime64": lambda: pd.Series(pd.to_datetime(["2020-01-01"])), "timedelta64": lambda: pd.Series(pd.to_timedelta([1])),
           "objects": lambda: pd.Series([Plain()] * n), "mixed": lambda: pd.Series([1, "a"], dtype=object), "mixed late": lambda: pd.Series(["a", "b", 1, "d"]), "Int64": lambda: pd.Series([1] * n, dtype="Int64"),
           "boolean": lambda: pd.Series([True], dtype="boolean"), "category": lambda: pd.Series(["a"], dtype="category"), "string": lambda: pd.Series(["a"], dtype="string"),
           "none": lambda: pd.Series([None] * n, dtype=object),
           "str gaps": lambda: pd.Series(["a", None, float("nan"), "d"]), "str gap first": lambda: pd.Series([None, "a", "b"]), "str long": lambda: pd.Series([f"a{i}" for i in range(5000)]),
           "mixed long": lambda: pd.Series(["a"] * 3000 + [1]), "bytes late": lambda: pd.Series(["a", "b", b"c"]), "bytes long": lambda: pd.Series(["a"] * 1500 + [b"c"] + ["a"] * 1500), "lists": lambda: pd.Series([[1]] * n)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return odd[c]() if c in odd else pd.Series([0] * n, dtype=c, index=list(range(5, 5 + n)) if old else None)


def np_term(x, pandas=False):
    import numpy as np
    import pandas as pd
    def name(c):
        return next((n for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool", "str", "bytes") if c is np_type(n)), repr(c))
    def col(s):
        return "bytes" if s.dtype == object and all(isinstance(v, bytes) for v in s) else "str" if s.dtype == object and all(isinstance(v, str) for v in s) else name(s.dtype.type)
    if isinstance(x, pd.Series):
        return {"np": "series", "c": col(x)}
    if isinstance(x, pd.DataFrame):
        return {"np": "frame", "fs": [{"n": n, "t": col(x[n])} for n in x.columns]}
    if isinstance(x, np.ndarray):
        return {"np": "array", "dims": x.ndim, "c": name(x.dtype.type)}
    return {"np": "scalar", "c": name(x)}


SYSTEMS: dict[str, tuple] = {"python": ("python", py_build, py_term), "pydantic": ("pydantic", py_build, py_term), "pyarrow": ("pyarrow", pa_build, pa_term),
                             "bigquery": ("bigquery", bq_build, bq_term), "numpy": ("numpy", np_build, np_term), "pandas": ("pandas", np_build, np_term)}


def run(check, *systems):
    import importlib
    for name in systems:
        mod, sys_build, sys_term = SYSTEMS[name]
        system = getattr(importlib.import_module(f"arti.types.{mod}"), f"{mod}_type_system")
        cases = tables.cases(check, "Types", consts=f'System = "{name}"\n Deeper = {check.pick("FALSE", "TRUE")}', workers=8, what=f"Types: {name}")

        def convert(fn, show, x):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = fn(x, hints={})
            except Exception as e:
                return ERR, f"{type(e).__name__}: {str(e)[:300]}", None
            return show(got), text(got), got

        def seen(show, x):
            try:
                return key(show(x))
            except Exception:   # what is no type of the system at all
                return text(x)

        def one(x, name=name, system=system, sys_build=sys_build, sys_term=sys_term):
            c, want = x["c"], x["want"]
            there = ((system.to_system, sys_term, build, system.to_artigraph, term) if c["dir"] == "to" else (system.to_artigraph, term, sys_build, system.to_system, sys_term))
            expect = want.get("x", ERR)
            for old in (False, True):
                made = there[2](c["t"]) if c["dir"] == "to" else there[2](c["t"], old)
                before = seen(there[4], made)
                got, detail, obj = convert(there[0], there[1], made)
                if key(got) != key(expect):
                    return f"{name} {c['dir']} {key(c['t'])[:250]}", {"system": name, "case": c, "input": text(made), "expected": expect, "got": got, "detail": detail}
                if seen(there[4], made) != before:
                    return f"{name} {c['dir']} {key(c['t'])[:250]}: changed the type given", {"system": name, "case": c}
                if "back" in want:
                    back, detail, _ = convert(there[3], there[4], obj)
                    if key(back) != key(want["back"]):
                        return f"{name} {c['dir']} and back {key(c['t'])[:250]}", {"system": name, "case": c, "input": text(made), "expected": want["back"], "got": back, "between": got, "detail": detail}
            return None

        check.traces += parallel(check, one, cases)
        for d in ("to", "from"):
            n = [x for x in cases if x["c"]["dir"] == d]
            check.count(f"{name} {d}", len(n))
            check.count(f"{name} {d}, refused", sum("err" in x["want"] for x in n))
        check.sample({name: cases[check.rng.randrange(len(cases))]})
