"""C27: composite types are validated, and what follows from them is derived (spec/Composite.tla)."""
import datetime as dt

from vf import tables

ITEMS = {"int": 7, "bool": True, "str": "x", "float": 1.5, "bytes": b"x", "none": None, "date": dt.date(2020, 1, 2), "datetime": dt.datetime(2020, 1, 2, 3)}
REFUSED = {"refused": True}


def leaf(k):
    from arti import types as at
    return getattr(at, k)(**({"precision": "microsecond"} if k in ("Timestamp", "DateTime", "Time") else {}))


def refused(fn):
    """The value, or that it is refused: with an error of the kinds that say so."""
    try:
        return fn(), None
    except (ValueError, TypeError):
        return None, REFUSED


def collection(c):
    from arti import PartitionKey
    from arti import types as at
    struct = at.Struct(fields={n: leaf(c["kinds"][n]) for n in c["order"]})
    t, no = refused(lambda: at.Collection(name=c["name"], element=struct, partition_by=tuple(c["pb"]), cluster_by=tuple(c["cb"])))
    if no:
        return no
    named = lambda d: [[n, type(f).__name__] for n, f in d.items()]
    def keys(t):
        try:
            return [f"{n} {k.__name__}" for n, k in PartitionKey.types_from(t).items()]
        except (KeyError, ValueError, NotImplementedError):
            return ["refused"]
    ks = keys(t)
    ok = (list(t.fields) == c["order"] and t.fields == struct.fields and keys(struct) == [] and not at.is_partitioned(at.List(element=struct)) and not at.is_partitioned(struct)
          and t.partition_by == tuple(c["pb"]) and t.cluster_by == tuple(c["cb"]))
    # The same by another way
    u = at.Collection.model_validate({"cluster_by": tuple(c["cb"]), "partition_by": tuple(c["pb"]), "element": struct, "name": c["name"]})
    return {"partitioned": at.is_partitioned(t), "pfields": named(t.partition_fields), "cfields": named(t.cluster_fields), "keys": ks,
            "friendly": t.friendly_key} if ok and u == t and keys(u) == ks else f"inconsistent: {t!r} {u!r}"


def enumeration(c):
    from arti import types as at
    vals = [ITEMS[i] for i in c["items"]]
    given = {"list": list, "set": set, "tuple": tuple, "frozenset": frozenset, "generator": lambda v: (x for x in v)}[c["given"]](vals)
    t, no = refused(lambda: at.Enum(name=c["name"], type=leaf(c["type"]), items=given))
    if no:
        return no
    return {"friendly": t.friendly_key, "n": len(t.items)} if t.items == frozenset(vals) and type(t.items) is frozenset else f"items: {t.items}"


def name(c):
    from arti import types as at

    def build(x):
        k = x["k"]
        if k == "Timestamp":
            return at.Timestamp(precision=x["p"].lower())
        if k == "Time":
            return at.Time(precision="second")
        if k == "Struct":
            return at.Struct(name=x["name"], fields={"a": at.Int64()})
        if k in ("List", "Set"):
            return getattr(at, k)(element=build(x["e"]))
        if k == "Map":
            return at.Map(key=build(x["a"]), value=build(x["b"]))
        if k == "Collection":
            return at.Collection(name=x["name"], element=build({"k": "Struct", "name": x["s"]}), partition_by=("a",))
        return getattr(at, k)()

    t = build(c)
    if any(u.friendly_key != t.friendly_key for u in (t.model_copy(update={"nullable": True}), t.model_copy(update={"description": "d"}), t.model_copy())):
        return "depends on more than the definition"
    return {"friendly": t.friendly_key}


def fields(c):
    from arti import types as at
    from arti.internal.mappings import frozendict
    from arti.internal.models import Model
    from arti.partitions import PartitionField, field_component
    kinds = {n: type(n, (at.Type,), {}) for n in ("T1", "T2")}
    before = dict(PartitionField._by_type_)
    out, made = [], {}
    try:
        for i, d in enumerate(c, 1):
            ns = {"__annotations__": {"value": int}, "__module__": __name__, "own": field_component(lambda self: 1), "__qualname__": f"F{i}"}
            if d["abstract"]:
                ns["_abstract_"] = True
            if d["defaults"] != ["missing"]:
                ns["default_components"] = frozendict({n: n for n in d["defaults"]})
            if d["typed"]:
                ns["matching_type"] = kinds[d["type"]]
            was = dict(PartitionField._by_type_)
            cls, no = refused(lambda: type(f"F{i}", (PartitionField,), ns))
            out.append("refused" if no else "ok")
            made[i] = cls
            if no and dict(PartitionField._by_type_) != was:
                return f"definition {i} refused yet registered"
        by = [[n, i] for i, cls in made.items() for n, k in kinds.items() if cls is not None and PartitionField._by_type_.get(k) is cls]
        if len(PartitionField._by_type_) != len(before) + len(by):
            return "registered otherwise"
        for n, i in by:
            if PartitionField.get_class_for(kinds[n]()) is not made[i]:
                return "another class for the type"
        return {"out": out, "by": by}
    finally:
        PartitionField._by_type_.clear()
        PartitionField._by_type_.update(before)


def run(check):
    for which, fn in (("collections", collection), ("enums", enumeration), ("names", name), ("fields", fields)):
        items = tables.cases(check, "Composite", consts=f'Which = "{which}"\n Deeper = {check.pick("FALSE", "TRUE")}', workers=6, what=f"Composite: {which}")
        tables.compare(check, items, fn, what=which)
