"""C28: casting values to artifacts, class defaults, and what type and format say about storage (spec/Artifacts.tla)."""
import copy
import datetime as dt
import functools

from vf import tables

ATOMS = {"none": None, "true": True, "false": False, "0": 0, "1": 1, "-7": -7, "1.0": 1.0, "2.5": 2.5, "'a'": "a", "''": "", "'{x}'": "{x} {graph_name}", "'1'": "1",
         "bytes": b"x", "date": dt.date(2020, 1, 2), "datetime": dt.datetime(2020, 1, 2, 3)}
REFUSED = {"refused": True}


@functools.cache
def defs():
    from arti import Annotation, Artifact, Producer, Statistic, producer
    from arti import types as at
    from arti.formats import Format
    from arti.internal.models import Model
    from arti.types.numpy import numpy_type_system

    class D:
        pass

    class Ann(Annotation):
        n: str

    class Stat(Statistic):
        n: str

    class Plain(Artifact):
        type: at.Type = at.Int64()

    class Base(Plain):
        annotations: tuple[Annotation, ...] = (Ann(n="A1"),)

    class Child(Base):
        statistics: tuple[Statistic, ...] = (Stat(n="S1"),)

    class Other(Base):
        annotations: tuple[Annotation, ...] = (Ann(n="A2"), Ann(n="A4"))

    class Grand(Other):
        statistics: tuple[Statistic, ...] = (Stat(n="S2"),)

    class Sub(Artifact):
        annotations: tuple[Annotation, ...] = (Ann(n="A1"),)

    class Holder(Model):
        artifact: Artifact

    class Takes(Producer):
        x: Artifact

        @staticmethod
        def build(x: int) -> int:
            return x

    @producer(name="One")
    def one(x: int) -> int:
        return x

    @producer(name="Two")
    def two(x: int) -> tuple[int, int]:
        return x, x

    class Numpy(Format):
        type_system = numpy_type_system

    class NumpyDotted(Numpy):
        extension: str = ".tar.gz"

    d = D()
    d.__dict__.update({k: v for k, v in locals().items() if k not in ("d", "D")})
    d.classes = {"plain": Plain, "base": Base, "child": Child, "other": Other, "grand": Grand}
    return d


def value(v):
    k = v["k"]
    if k == "atom":
        return ATOMS[v["a"]]
    if k in ("list", "tuple", "set", "frozenset"):
        return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[k](ATOMS[x] for x in v["xs"])
    if k == "dict":
        return {ATOMS[a]: ATOMS[b] for a, b in zip(v["ks"], v["xs"])}
    if k == "nest":
        e = {"list": [1], "tuple": (1,), "dict": {"a": 1}, "set": {1}, "object": object(), "class": int}[v["e"]]
        return {"list": [e], "tuple": (e, e), "dict": {"a": e}}[v["c"]]
    from arti import Artifact
    from arti import types as at
    d = defs()
    return {"object": object, "class": lambda: int, "function": lambda: print, "complex": lambda: 1j, "range": lambda: range(2), "bytearray": lambda: bytearray(b"x"),
            "artifact class": lambda: d.Plain, "producer class": lambda: d.one, "type": at.Int64, "two outputs": lambda: d.two(x=Artifact(type=at.Int64())), "lambda": lambda: lambda: 1,
            "artifact": lambda: Artifact(type=at.String()), "sub artifact": lambda: d.Child(), "produced": lambda: d.two(x=Artifact(type=at.Int64())).out()[1],
            "one output": lambda: d.one(x=Artifact(type=at.Int64()))}[v["o"]]()


def exact(x):
    """Values with their classes told apart, order included."""
    if isinstance(x, list | tuple):
        return [type(x).__name__, *map(exact, x)]
    if isinstance(x, dict):
        return ["dict", *([exact(k), exact(v)] for k, v in x.items())]
    return [type(x).__name__, repr(x)]


def typ(t):
    from arti import types as at
    n = type(t).__name__
    if isinstance(t, at.List):
        n = f"List({typ(t.element)})"
    if isinstance(t, at.Map):
        n = f"Map({typ(t.key)},{typ(t.value)})"
    return n + ("?" if t.nullable and not isinstance(t, at.Null) else "")


def cast(c):
    from arti import Artifact, Graph
    from arti import types as at
    from arti import views
    from arti.formats.json import JSON
    from arti.storage.literal import StringLiteral
    from arti.views import python as vp
    d = defs()
    v = value(c["v"])
    where = {"assign": "x", "nested": "a.b", "mapping": "m.n"}.get(c["by"])
    g = Graph(name="g")
    try:
        if where is None:
            art = (Artifact if c["by"] == "cast" else d.Sub).cast(v)
        else:
            with g:
                if c["by"] == "mapping":
                    g.artifacts.m = {"n": v}
                else:
                    g.artifacts[where] = v
    except (ValueError, TypeError, NotImplementedError, StopIteration):
        if where is not None and list(g.artifacts.walk()):
            return "refused, yet assigned"
        return REFUSED
    if where is not None:
        art = g.artifacts[where]
    if c["v"]["k"] == "kept":
        o = c["v"]["o"]
        if o == "one output":
            ok = art.producer_output is not None and art.producer_output.producer is v and art.producer_output.position == 0 and type(art) is Artifact
        elif where is None:
            ok = art is v
        else:
            ok = type(art) is type(v) and art.type == v.type and art.annotations == v.annotations and art.statistics == v.statistics and art.producer_output == v.producer_output
        return {"kept": o} if ok else f"changed: {art!r}"
    if type(art.format) is not JSON or type(art.storage) is not StringLiteral or not isinstance(art, Artifact) or art.producer_output is not None:
        return f"otherwise: {art!r}"
    if c["by"] == "subclass" and (type(art) is not d.Sub or [a.n for a in art.annotations] != ["A1"]):
        return f"not of the class: {art!r}"
    if where is None:
        with g:
            g.artifacts.x = art
        art = g.artifacts.x
    # As it is read back, in every way
    t = art.type
    cls = {at.Null: vp.Null, at.Boolean: vp.Int, at.Int64: vp.Int, at.Float64: vp.Float, at.String: vp.Str, at.List: vp.List, at.Map: vp.Dict}[type(t)]
    how = [{"view": cls(mode="READ", type=t, artifact_class=type(art))}]
    if not isinstance(t, at.Null | at.Boolean):
        how.append({"annotation": art.format.type_system.to_system(t, hints={})})
    backs = [src.read(art, **kw) for kw in how for src in (g, g.snapshot(), g.build())]
    back = value(c["v"] if c["v"]["k"] != "tuple" else c["v"] | {"k": "list"})
    if any(exact(b) != exact(back) for b in backs):
        return {"type": typ(t), "back": repr(backs)}
    return {"type": typ(t), "back": c["v"] | ({"k": "list"} if c["v"]["k"] == "tuple" else {})}


def life(c):
    from arti import Artifact, Graph
    from arti import types as at
    from arti.formats.pickle import Pickle
    from arti.storage.local import LocalFile
    d = defs()
    cls = d.classes[c["cls"]]
    kw = {"storage": LocalFile(path="/r/{names}/{input_fingerprint}/{name}{extension}")}
    if c["a"] != ["omitted"]:
        kw["annotations"] = tuple(d.Ann(n=n) for n in c["a"])
    if c["s"] != ["omitted"]:
        kw["statistics"] = tuple(d.Stat(n=n) for n in c["s"])
    art = cls(**kw)
    steps = []
    for op in c["ops"]:
        steps.append("ok")
        if op == "copy":
            art = art.model_copy()
        elif op == "deepcopy":
            art = copy.deepcopy(art)
        elif op == "update":
            art = art.model_copy(update={"format": Pickle()})
            art = art.model_copy(update={"format": type(art.format)()})
        elif op == "deep":
            art = art.model_copy(deep=True)
        elif op == "validate":
            art = type(art).model_validate(art)
        elif op == "field":
            art = d.Holder(artifact=art).artifact
        elif op == "cast":
            art = Artifact.cast(art)
        elif op == "input":
            art = d.Takes(x=art).inputs["x"]
        elif op == "out":
            before = art.model_dump_json()
            p = d.one(x=Artifact(type=at.Int64()))
            try:
                new = p.out(art)
            except ValueError:
                steps[-1] = "refused"
                continue
            if art.model_dump_json() != before or art.producer_output is not None:
                return "the given artifact changed"
            art = new
        elif op == "graph":
            g = Graph(name="g")
            try:
                with g:
                    g.artifacts["n.m"] = art
            except ValueError:
                steps[-1] = "refused"
                continue
            art = g.artifacts.n.m
    return {"a": [a.n for a in art.annotations], "s": [s.n for s in art.statistics], "cls": next(k for k, v in d.classes.items() if v is type(art)), "steps": steps,
            "produced": art.producer_output is not None}


def made(c):
    from arti import Artifact, Format, Storage
    from arti import types as at
    from arti.formats.json import JSON
    from arti.formats.pickle import Pickle
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile
    d = defs()
    s = at.Struct(fields={"d": at.Date(), "i": at.Int64(), "o": at.String()})
    types = {"Int64": at.Int64(), "UInt8": at.UInt8(), "Date": at.Date(), "Geography": at.Geography(), "ListGeography": at.List(element=at.Geography()),
             "MapUInt8": at.Map(key=at.String(), value=at.UInt8()), "Coll d": at.Collection(element=s, partition_by=("d",)), "Coll d i": at.Collection(element=s, partition_by=("d", "i")),
             "List": at.List(element=s)}
    formats = {"JSON": JSON, "Pickle": Pickle, "Numpy": d.Numpy, "NumpyDotted": d.NumpyDotted}
    file = lambda p: lambda: LocalFile(path=p)
    storages = {"file": file("/r/{partition_key_spec}/{input_fingerprint}/{name}{extension}"), "file plain": file("/r/fixed"), "file dirs": file("/r/{name}/{partition_key_spec}/part{extension}"),
                "literal": StringLiteral, "file default": lambda: LocalFile(path=LocalFile._DEFAULT_PATH_TEMPLATE)}
    ns = {"__annotations__": {}, "__module__": __name__, "__qualname__": "Made"}
    for field, kind, n, table in (("type", at.Type, c["ct"], types), ("format", Format, c["cf"], formats), ("storage", Storage, c["cs"], storages)):
        if n != "none":
            ns["__annotations__"][field] = kind
            ns[field] = table[n] if field == "type" else table[n]()
    cls = type("Made", (Artifact,), ns)
    kw = {}
    if c["t"] != "none":
        kw["type"] = types[c["t"]]
    if c["f"] != "none":
        kw["format"] = formats[c["f"]]()
    if c["s"] != "none":
        kw["storage"] = storages[c["s"]]()
    try:
        art = cls(**kw)
    except (ValueError, NotImplementedError):
        return REFUSED
    again = cls(**dict(reversed(kw.items())))
    if again != art:
        return f"differs by order: {again!r} {art!r}"
    if c["s"] != "none" and kw["storage"] != storages[c["s"]]():
        return "the given storage changed"
    at_ = art.storage.path if isinstance(art.storage, LocalFile) else art.storage.id
    sname = "literal" if isinstance(art.storage, StringLiteral) else next(n for n in (c["s"], c["cs"]) if n != "none")
    return {"type": next(k for k, v in types.items() if v == art.type), "format": next(k for k, v in formats.items() if v is type(art.format)), "storage": sname, "at": at_}


def run(check):
    for which, fn in (("cast", cast), ("life", life), ("made", made)):
        items = tables.cases(check, "Artifacts", consts=f'Which = "{which}"\n Deeper = {check.pick("FALSE", "TRUE")}', workers=6, what=f"Artifacts: {which}")
        tables.compare(check, items, fn, what=which)
