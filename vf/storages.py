"""Storage templates and partitions of spec/Templates.tla as real ones."""
import os
from datetime import date

from arti import Artifact, Fingerprint, InputFingerprints, PartitionKey
from arti.formats.json import JSON
from arti.partitions import DateField, Int32Field, Int64Field, NullField
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Int32, Int64, Null, Struct

INTS = {1: 5, 2: -3, 3: 0, 4: 120}
DATES = {1: date(2024, 1, 2), 2: date(2024, 11, 12), 3: date(2023, 1, 10), 4: date(987, 12, 1)}
TYPES = {"i": Int64(), "j": Int32(), "d": Date(), "n": Null()}


def type_of(fields):
    if not fields:
        return Int64()
    return Collection(element=Struct(fields={**{f: TYPES[f] for f in fields}, "v": Int64()}), partition_by=tuple(fields))


def pkey(k):
    make = {"i": lambda n: Int64Field(value=INTS[n]), "j": lambda n: Int32Field(value=INTS[n]),
            "d": lambda n: DateField(value=DATES[n]), "n": lambda n: NullField()}
    return PartitionKey({f: make[f](n) for f, n in (k or {}).items()})


def unkey(pk):
    back = {Int64Field: ("i", INTS), Int32Field: ("j", INTS), DateField: ("d", DATES)}
    out = {}
    for f, v in pk.items():
        if f == "n":
            out[f] = 1 if type(v) is NullField else "?"
            continue
        name, table = back[type(v)]
        out[f] = next((n for n, x in table.items() if x == v.value), f"? {v}") if name == f else f"? {v}"
    return out or []


def fingerprint(fp):
    return Fingerprint.from_int(int(fp)) if fp else None
