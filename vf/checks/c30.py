"""C30: written data reads back equal, partitions stand alone and failed writes leave no trace (spec/Stored.tla)."""
import datetime as dt
import functools
import json
import os
import pickle
import resource
import shutil
import signal
import tempfile
from pathlib import Path

from arti import Artifact, Fingerprint, InputFingerprints, PartitionKey, StoragePartitionSnapshots, io
from arti import types as at
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import Int64Field
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.views import python as vp

from vf import tables, tlc
from vf.replay import LTS, Adapter, key, replay_lts

STRINGS = {"quoted": 'say "hi"\\\n\t{x}', "accents": "h\u00e9llo \u2713 \U0001f600 \ud83d", "nul": "a\x00b", "long": "x" * 70000}
INTS = {"max": 2**63 - 1, "min": -(2**63)}
TYPES = {"Int64": at.Int64(), "Float64": at.Float64(), "String": at.String(), "Boolean": at.Boolean(), "Null": at.Null(), "OptInt": at.Int64(nullable=True), "Date": at.Date(), "Timestamp": at.Timestamp(precision="microsecond"),
         "EnumS": at.Enum(type=at.String(), items=("a", "5")), "EnumI": at.Enum(type=at.Int64(), items=(3, -5))}
VIEWS = {int: vp.Int, bool: vp.Int, float: vp.Float, str: vp.Str, type(None): vp.Null, dt.date: vp.Date, dt.datetime: vp.Datetime, list: vp.List, set: vp.List, dict: vp.Dict}


def type_of(t):
    match t[0]:
        case "List": return at.List(element=type_of(t[1]))
        case "Set": return at.Set(element=type_of(t[1]))
        case "Map": return at.Map(key=type_of(t[1]), value=type_of(t[2]))
        case "Struct": return at.Struct(fields={"a": type_of(t[1]), "b": at.Int64(), "c": type_of(t[1])})
    return TYPES[t[0]]


def value(v):
    k, x = v
    match k:
        case "list": return [value(i) for i in x]
        case "set": return {value(i) for i in x}
        case "map": return {value(i): value(j) for i, j in x}
        case "struct": return {i: value(j) for i, j in x}
        case "Int64": return INTS[x] if x in INTS else int(x)
        case "OptInt": return None if x == "null" else int(x)
        case "EnumI": return int(x)
        case "Float64": return float(x)
        case "String" | "EnumS": return STRINGS.get(x, x)
        case "Boolean": return x == "true"
        case "Null": return None
        case "Date": return dt.date.fromisoformat(x)
        case "Timestamp": return dt.datetime.fromisoformat(x)


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(alike(x, y) and alike(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, set):
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return repr(a) == repr(b)


# ---------------------------------------------------------------- somewhere to store
def bucket():
    """An emulated bucket, one server per process."""
    return _bucket(os.getpid())


@functools.cache
def _bucket(pid):
    import gcp_storage_emulator.server
    import gcsfs
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    server = gcp_storage_emulator.server.create_server("localhost", 0, in_memory=True)
    server.start()
    host, port = server._api._httpd.socket.getsockname()
    os.environ["STORAGE_EMULATOR_HOST"] = f"{host}:{port}"
    gcsfs.GCSFileSystem()   # (the first instance in a process is not the one shared later)
    fs = gcsfs.GCSFileSystem()
    fs.mkdir("bucket")
    return fs


N = [0]


def fresh():
    N[0] += 1
    return f"{os.getpid()}-{N[0]}"


PLACES = [("JSON", "local"), ("JSON", "literal"), ("JSON", "gcs"), ("Pickle", "local"), ("Pickle", "gcs")]
FORMATS = {"JSON": JSON, "Pickle": Pickle}


def bytes_of(partition):
    if isinstance(partition, GCSFile.storage_partition_type):
        return bucket().cat(partition.qualified_path)
    if isinstance(partition, LocalFile.storage_partition_type):
        return Path(partition.path).read_bytes()
    return partition.value.encode("utf-8", "surrogatepass")


def round_trip(c):
    """Each value, in each format and storage: what comes back."""
    type_ = type_of(c["t"])
    out = []
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        for v in c["vs"]:
            x = value(v)
            view = VIEWS[type(x)](mode="READWRITE", artifact_class=Artifact, type=type_)
            got = {}
            for f, place in PLACES:
                storage = {"local": lambda: LocalFile(path=f"{d}/{fresh()}"), "literal": lambda: StringLiteral(id=fresh()), "gcs": lambda: GCSFile(bucket=bucket() and "bucket", path=fresh())}[place]()
                a = Artifact(type=type_, format=FORMATS[f](), storage=storage)
                try:
                    snap = io.write(x, a.type, a.format, a.storage.generate_partition(), view)
                except TypeError:
                    res = ["refused"]
                    if place != "literal" and a.storage.discover_partitions():
                        res = ["refused, but there is something"]
                else:
                    back = io.read(a.type, a.format, (snap,), view)
                    res = v if alike(back, x) else {"read": repr(back)[:200], "at": place}
                    if place != "literal" and a.storage.discover_partitions() != (snap,):
                        res = {"discovered": repr(a.storage.discover_partitions())[:300], "at": place}
                    if snap.storage_partition.snapshot() != snap:
                        res = {"another snapshot": repr(snap)[:200]}
                    seen = (place, bytes_of(snap.storage_partition))
                    if not CONTENTS.setdefault(seen, snap.content_fingerprint) == snap.content_fingerprint:
                        res = {"another fingerprint for the same contents": place}
                    if PRINTS.setdefault((place, snap.content_fingerprint), seen) != seen:
                        res = {"the same fingerprint for other contents": place}
                    if len(CONTENTS) > 4000:
                        CONTENTS.clear(), PRINTS.clear()
                if key(got.setdefault(f, res)) != key(res):
                    return {"in some storages": got, "in others": res, "value": v}
            out.append(got)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


CONTENTS, PRINTS = {}, {}

# ---------------------------------------------------------------- histories
FP = {"f1": Fingerprint.from_int(11), "f2": Fingerprint.from_int(-22)}
KEYS = {"k1": PartitionKey(k=Int64Field(value=1)), "k2": PartitionKey(k=Int64Field(value=-12))}
COLL = at.Collection(element=at.Struct(fields={"k": at.Int64(), "v": at.String()}), partition_by=("k",))
MEG = 1024 * 1024


@functools.cache
def data(size):
    """size: of what is big (more than is read at once locally; checksums of an emulated bucket are slow)."""
    big = "y" * size
    return {"empty": [], "row": [{"k": 1, "v": "a"}], "rows": [{"k": 1, "v": "b"}, {"k": 1, "v": "a"}],
            "big": [{"k": 1, "v": big}], "big too": [{"k": 1, "v": big[:-1] + "z"}], "big three": [{"k": 1, "v": "z" + big[1:]}]}




class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this")


class Partitions(Adapter):
    """A partitioned artifact somewhere."""

    def __init__(self, f, place, layout=""):
        self.f, self.place, self.layout = f, place, layout
        self.data = data(2 * MEG if place == "local" else 30000)
        self.dir = Path(tempfile.mkdtemp(prefix="vf-"))
        name = fresh()
        root = self.dir / "data"
        if place == "local" and layout == "linked":
            (self.dir / "elsewhere").mkdir()
            root.symlink_to(self.dir / "elsewhere")
        path = {"": "{k.value}/{input_fingerprint}/x{extension}", "linked": "{input_fingerprint}/{k.value}", "flat": "{k.value}-{input_fingerprint}{extension}"}[layout]
        storage = {"local": lambda: LocalFile(path=f"{root}/{path}"), "literal": lambda: StringLiteral(id=path), "gcs": lambda: GCSFile(bucket=bucket() and "bucket", path=f"{name}/{path}")}[place]()
        self.a = Artifact(type=COLL, format=FORMATS[f](), storage=storage)
        self.view = vp.List(mode="READWRITE", artifact_class=Artifact, type=COLL)
        self.kept = {}      # literals live in their snapshots
        self.prints = {}    # value -> content fingerprint
        if place == "local" and layout == "flat":
            # others' files nearby
            root.mkdir()
            (root / "notes.txt").write_text("hello")

    def part(self, cell):
        k, f = cell
        return self.a.storage.generate_partition(partition_key=KEYS[k], input_fingerprint=FP[f])

    def write(self, cell, x):
        snap = io.write(x, self.a.type, self.a.format, self.part(cell), self.view)
        if snap.input_fingerprint != FP[cell[1]] or snap.partition_key != KEYS[cell[0]]:
            return f"wrote {snap!r}"
        if self.place == "literal":
            self.kept[tuple(cell)] = snap
        return "ok"

    def snap(self, cell):
        if self.place == "literal":
            return self.kept[tuple(cell)] if tuple(cell) in self.kept else self.part(cell).snapshot()
        return self.part(cell).snapshot()

    def fail(self, cell, how):
        bad = {"unserialisable": Unpicklable(), "late unserialisable": [{"k": 1, "v": "x" * 100000}, {"k": Unpicklable()}]}.get(how)
        x = self.data["big three"]
        if bad is not None:
            try:
                self.write(cell, bad)
            except Exception:
                return "error"
            return "ok"
        if self.place == "literal":
            # Nothing to fill: a literal that has a value stays as it is
            if tuple(cell) not in self.kept:
                return "error"
            try:
                io.write(self.data["row"], self.a.type, self.a.format, self.kept[tuple(cell)].storage_partition, self.view)
            except ValueError:
                return "error"
            return "ok"
        if self.place == "gcs":
            return self.cut_off(cell, x)
        if how == "disk full":
            limit, old = resource.getrlimit(resource.RLIMIT_FSIZE), signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (MEG, limit[1]))
            try:
                self.write(cell, x)
            except OSError:
                return "error"
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
                signal.signal(signal.SIGXFSZ, old)
            return "ok"
        # killed while writing
        pid = os.fork()
        if not pid:
            try:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (MEG, MEG))
                self.write(cell, x)
                os._exit(0)
            finally:
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        return "error" if os.WIFSIGNALED(status) else f"status {status}"

    def cut_off(self, cell, x):
        """The connection is lost while sending."""
        fs = bucket()
        call, seen = fs._call, []

        async def lost(*a, **kw):
            seen.append(kw.get("method", a[0] if a else None))
            if seen[-1].upper() in ("POST", "PUT"):
                raise OSError("connection lost")
            return await call(*a, **kw)
        fs._call = lost
        try:
            self.write(cell, x)
        except OSError:
            return "error"
        finally:
            del fs._call
        return f"ok after {seen}"

    def apply(self, act):
        match act["op"]:
            case "write":
                return self.write(act["cell"], self.data[act["value"]])
            case "fail":
                return self.fail(act["cell"], act["how"])
            case "remove":
                if self.place == "literal":
                    del self.kept[tuple(act["cell"])]
                elif self.place == "local":
                    os.unlink(self.part(act["cell"]).path)
                else:
                    bucket().rm(self.part(act["cell"]).qualified_path)
                return "ok"
            case "read":
                try:
                    snaps = tuple(self.snap(c) for c in act["cells"])
                    got = io.read(self.a.type, self.a.format, snaps, self.view)
                except FileNotFoundError:
                    return ["missing"]
                vals = []
                for s in snaps:
                    vals += [self.name(io.read(self.a.type, self.a.format, (s,), self.view))]
                if got != [r for v in vals for r in self.data.get(v, [None])]:
                    return {"read together": repr(got)[:300], "apart": vals}
                return vals
            case "discover":
                return sorted(self.found(act["fps"]))

    def same(self, want, got):
        return key(sorted(want) if isinstance(want, list) and want and isinstance(want[0], list) else want) == key(got)

    def name(self, x):
        return next((n for n, v in self.data.items() if v == x), repr(x)[:100])

    def found(self, fps):
        if self.place == "literal":
            return [[list(c), self.content(s)] for c, s in self.kept.items() if list(c) in fps]
        snaps = self.a.storage.discover_partitions(InputFingerprints({KEYS[k]: FP[f] for k, f in fps}))
        back = lambda d, x: next((k for k, v in d.items() if v == x), repr(x))
        if any(s.storage_partition != self.part([back(KEYS, s.partition_key), back(FP, s.input_fingerprint)]) for s in snaps):
            return [["elsewhere", repr(snaps)[:300]]]
        return [[[back(KEYS, s.partition_key), back(FP, s.input_fingerprint)], self.content(s)] for s in snaps]

    def content(self, snap):
        """The value a snapshot was taken of, by its fingerprint."""
        got = self.name(io.read(self.a.type, self.a.format, (snap,), self.view))
        if got not in self.data:
            return got
        fp = self.prints.setdefault(got, snap.content_fingerprint)
        if fp != snap.content_fingerprint:
            return f"{got}, with another fingerprint"
        if list(self.prints.values()).count(fp) > 1:
            return f"{got}, with the fingerprint of {[n for n, p in self.prints.items() if p == fp]}"
        return got

    def check(self, t):
        got, want = sorted(x for f in FP for x in self.found([[k, f] for k in KEYS])), sorted(t)
        if key(got) != key(want):
            return {"there": got, "not": want, "in": [self.f, self.place, self.layout]}
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(check):
    base = "\n More = FALSE\n Values = {}"
    items = tables.cases(check, "Stored", inv="TLaws", init="TInit", nxt="TNext", emit="TEmit", consts=f"Depth = {check.pick(2, 3)}" + base, workers=6, what="Stored: types and values")
    tables.compare(check, items, round_trip, what="round trips", name=lambda c: key(c["t"]))
    import sys
    for values, what in (('{"empty", "row", "rows"}', "rows"), ('{"big", "big too", "row"}', "large")):
        r = tlc.run("Stored", workers=4, cfg_text=f'INIT HInit\nNEXT HNext\nCONSTANTS Depth = 0\n More = {str(check.thorough).upper()}\n Values = {values}\nPROPERTIES HLaws\nACTION_CONSTRAINTS HEdge\nVIEW HView\nCHECK_DEADLOCK FALSE\n')
        check.spec(r, what=f"Stored: histories of {what}")
        lts = LTS(r.get("E"))
        for f, place in PLACES:
            for layout in ("", "linked", "flat"):
                if (layout != "" and place != "local"):
                    continue
                n = {"local": 40, "literal": 60, "gcs": 12}[place] if what == "rows" else {"local": 12, "literal": 12, "gcs": 6}[place]
                replay_lts(check, lts, ["[]"], lambda: Partitions(f, place, layout), what=f"{what}: {f} {place} {layout}", max_len=40, limit=check.pick(n, n * 10))
