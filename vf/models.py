"""Terms of spec/Models.tla as real models."""
from datetime import date
from typing import Annotated, Any, Literal

from arti import Annotation, Artifact, Fingerprint, PartitionKey, Producer, Statistic, Type, types
from arti.artifacts import Artifact as _Artifact  # noqa: F401
from arti.fingerprints import SkipFingerprint
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import FrozenMapping
from arti.internal.models import Model
from arti.partitions import DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField
from arti.producers import ProducerOutput
from arti.storage import StoragePartitionSnapshot
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Int64
from arti.versions import GitCommit
from arti.versions import String as VersionString
from arti.views.python import Int, Str


class P(Model):
    x: int
    y: str = "a"


class Q(P):
    pass


class R(P):
    z: int | None = None


class S(Model):
    x: int
    note: Annotated[int, SkipFingerprint()] = 0


class S2(S):
    more: Annotated[int, SkipFingerprint()] = 0
    w: int = 0


class N(Model):
    m: P
    label: str = "l"


class O(Model):
    o: N | None = None
    p: tuple[P, ...] = ()


class F(Model):
    f: FrozenMapping[str, int]
    g: FrozenMapping[str, P] = {}


class T(Model):
    t: tuple[int, ...]
    b: bool = False


class U(Model):
    v: int | str | None


class W(Model):
    v: bool


class L(Model):
    kind: Literal["r", "w"] = "r"
    fl: float = 0.0


class V(Model):
    pass


class V2(Model):
    pass


class Note(Annotation):
    text: str


class Stat(Statistic):
    type: Type = Int64()
    text: str


class Num(Artifact):
    type: Type = Int64()


class Prod(Producer):
    a: Num

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a


CLASSES = {c.__name__: c for c in (
    P, Q, R, S, S2, N, O, F, T, U, W, L, V, V2, Note, Stat, Num, Prod, Artifact, ProducerOutput, JSON, Pickle, DateField, Int8Field, Int16Field,
    Int32Field, Int64Field, NullField, GCSFile, StringLiteral, StringLiteralPartition, LocalFile, LocalFilePartition, StoragePartitionSnapshot,
    GitCommit, Int, Str)} | {n: c for n, c in vars(types).items() if isinstance(c, type) and issubclass(c, types.Type)}
CLASSES["VersionString"] = VersionString


def plain(v, build=None):
    """The Python value of a term."""
    build = build or make
    (k,) = set(v) - {"f"}
    x = v[k]
    if k == "cls":
        return build(v)
    if k in ("int", "str", "bool"):
        return x
    if k == "float":
        return float(x)
    if k == "none":
        return None
    if k == "tup":
        return tuple(plain(i, build) for i in x)
    if k == "set":
        return [plain(i, build) for i in x]
    if k == "map":
        return {a: plain(b, build) for a, b in x}
    if k == "date":
        return date(2024, 1, x)
    if k == "fp":
        return Fingerprint.from_int(x)
    if k == "class":
        return CLASSES[x]
    raise AssertionError(v)


def kwargs(v, build=None):
    out = {n: plain(x, build) for n, x in (v["f"] or {}).items()}
    if "partition_key" in out:
        out["partition_key"] = PartitionKey(out["partition_key"])
    return out


def make(v):
    return CLASSES[v["cls"]](**kwargs(v))
