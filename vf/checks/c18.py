"""C18: producers take compatible artifacts only, and mark what they put out (spec/Instances.tla)."""
import functools
from typing import Annotated, Any

from arti import Annotation, Artifact, PartitionDependencies, Producer, Statistic, StoragePartitions
from arti.internal.mappings import frozendict
from arti.versions import SemVer

from vf import tables, tlc
from vf.checks.c24 import defs
from vf.replay import LTS, Adapter, key, replay_lts


class Note(Annotation):
    text: str = "note"


def hint(d):
    T, V, A, _, _ = defs()
    return Annotated[Any, V[d["view"]], T[d["type"]], A[d["class"]]]


def dependencies(**parts):
    return frozendict({frozendict(): frozendict(parts)})


@functools.cache
def reader(k, role):
    """A producer with an input x declared as d: built from, only mapped or both."""
    d = _D[k]
    T, V, A, _, _ = defs()
    ns = {"__annotations__": {"x": A[d["class"]]}, "__module__": __name__}
    def build(x): ...
    build.__annotations__ = {"x": hint(d), "return": int}
    def nobuild(): ...
    nobuild.__annotations__ = {"return": int}
    def map(x: StoragePartitions) -> PartitionDependencies: ...
    ns["build"] = staticmethod(nobuild if role == "map" else build)
    if role != "build":
        ns["map"] = staticmethod(map)
    return type("Reader", (Producer,), ns)


@functools.cache
def writer(k):
    """A producer without inputs and with outputs as declared."""
    ds = _D[k]
    def build(): ...
    build.__annotations__ = {"return": tuple[*(hint(d) for d in ds)] if len(ds) > 1 else hint(ds[0])}
    return type("Writer", (Producer,), {"__module__": __name__, "build": staticmethod(build)})


_D = {}


def by(d):
    k = key(d)
    _D[k] = d
    return k


def made(a, **kw):
    T, V, A, FM, S = defs()
    return A[a["class"]](type=T[a["type"]], format=FM[a["format"]](), storage=S[a["storage"]](), annotations=(Note(),), **kw)


FIELDS = ("type", "format", "storage", "annotations", "statistics")


def same(a, b):
    return type(a) is type(b) and all(getattr(a, f) == getattr(b, f) for f in FIELDS) and a.fingerprint == b.fingerprint


def one(c):
    a = made(c["art"])
    before = a.model_copy()
    try:
        if c["role"] == "out":
            p = writer(by([c["decl"]]))()
            o = p.out(a)
            if not (same(o, a) and o.producer_output.producer == p and o.producer_output.position == 0 and o is not a):
                return f"put out {o!r} {o.producer_output}"
        else:
            p = reader(by(c["decl"]), c["role"])(x=a)
            if p.x != a or p.inputs != {"x": a} or type(p.x) is not type(a):
                return f"took in {p.x!r}"
        got = {"ok": True}
    except ValueError:
        got = {"ok": False}
    return got if a == before and a.producer_output is None else f"the artifact became {a!r}"


@functools.cache
def another():
    @staticmethod
    def build() -> Annotated[int, Artifact]: ...
    return type("Another", (Producer,), {"__module__": __name__, "build": build})()


def given(g, p, i):
    """What is given as output i of p."""
    from arti.producers import ProducerOutput
    k = g["kind"]
    if k == "artifact":
        a = made(g["a"])
        return a if g["origin"] == "none" else a.model_copy(update={"producer_output": ProducerOutput(producer=p if g["origin"] == "its own" else another(), position=i)})
    return {"class": defs()[2]["Plain"], "value": 5, "none": None, "producer": another(), "string": "Plain"}[k]


def outs(c):
    p = writer(by(c["decls"]))()
    gs = [given(g, p, i) for i, g in enumerate(c["given"])]
    if c["twice"]:
        gs[1] = gs[0]
    before = [g.model_copy() if isinstance(g, Artifact) else g for g in gs]
    fp = p.fingerprint
    try:
        got = p.out(*gs)
        if (len(c["decls"]) > 1) != isinstance(got, tuple):
            return f"{got!r}"
        seq = got if isinstance(got, tuple) else (got,)
        if [(o.producer_output.producer == p, o.producer_output.position) for o in seq] != [(True, i) for i in range(len(seq))]:
            return f"origins {[o.producer_output for o in seq]}"
        if gs and not all(same(g, o) for g, o in zip(gs, seq)):
            return f"put out {seq!r}"
        T, V, A, FM, S = defs()
        name = lambda d, x: next(k for k, v in d.items() if v is type(x))
        if not gs and any(o.annotations or o.statistics or o != p.out()[i] if len(seq) > 1 else o != p.out() for i, o in enumerate(seq)):
            return f"put out {seq!r}"
        from arti.storage.literal import StringLiteral
        res = {"ok": True, "outs": [{"class": name(A, o), "type": next(k for k, t in T.items() if t == o.type), "format": name(FM, o.format),
                                     "storage": next(k for k, s in S.items() if type(s()) is type(o.storage))} for o in seq]}
        if not gs and list(p) != list(seq):
            return f"iterated {list(p)}"
    except (ValueError, TypeError):
        res = {"ok": False}
    return res if gs == before and p.fingerprint == fp else f"what was given became {gs!r}"


def args(c):
    T, V, A, FM, S = defs()
    d = {"view": "Int", "class": "Plain", "type": "Int64"}
    art = {"class": "Plain", "type": "Int64", "format": "JSON", "storage": "Local"}

    def arg(k):
        match k:
            case "fits": return made(art)
            case "fits too": return made({**art, "class": "Sub", "format": "Pickle"})
            case "misfit": return made({**art, "class": "AInt"})
            case "produced": return writer(by([d]))().out(made(art))
            case "producer": return writer(by([d]))()
        return {"none": None, "value": 5, "class": A["Plain"]}[k]

    ns = {n: arg(c[n]) for n in ("x", "y") if c[n] != "missing"}
    more = {"unknown": {"z": made(art)}, "annotations": {"annotations": (Note(),)}, "version": {"version": SemVer(major=1, minor=2, patch=3)}, "bad version": {"version": "1.2.3"}, "bad annotations": {"annotations": ("x",)}}.get(c["extra"], {})
    P = two()
    try:
        p = P(**ns, **more)
    except (ValueError, TypeError):
        return {"ok": False}
    if p.inputs != ns or any(p.inputs[n].producer_output != ns[n].producer_output for n in ns) or any(getattr(p, k) != v for k, v in more.items()) or (not more and p != P(**ns)):
        return f"took in {p!r}"
    return {"ok": True}


@functools.cache
def two():
    T, V, A, _, _ = defs()
    Plain = A["Plain"]
    hint_ = hint({"view": "Int", "class": "Plain", "type": "Int64"})
    def build(x, y): ...
    build.__annotations__ = {"x": hint_, "y": hint_, "return": int}
    return type("Two", (Producer,), {"__annotations__": {"x": Plain, "y": Plain}, "__module__": __name__, "build": staticmethod(build)})


@functools.cache
def kinds():
    T, V, A, FM, S = defs()
    ip, ia = (Annotated[int, V["Int"], T["Int64"], A[k]] for k in ("Plain", "AInt"))
    def b1(x): ...
    b1.__annotations__ = {"x": ip, "return": ip}
    def b2(x, y): ...
    b2.__annotations__ = {"x": ip, "y": ia, "return": tuple[ia, ip]}
    mk = lambda n, fields, b: type(n, (Producer,), {"__annotations__": fields, "__module__": __name__, "build": staticmethod(b)})
    return {"K1": mk("K1", {"x": A["Plain"]}, b1), "K2": mk("K2", {"x": A["Plain"], "y": A["AInt"]}, b2)}


class Pool(Adapter):
    def __init__(self):
        self.arts = [made({"class": k, "type": "Int64", "format": "JSON", "storage": "Local"}) for k in ("Plain", "AInt")]
        self.prods = []
        self.prints = [(a, a.fingerprint) for a in self.arts]

    def apply(self, act):
        try:
            if act["op"] == "make":
                self.prods.append(kinds()[act["kind"]](**dict(zip("xy", (self.arts[i - 1] for i in act["ins"])))))
            else:
                p = self.prods[act["p"] - 1]
                match act["how"]:
                    case "given": got = p.out(*(self.arts[i - 1] for i in act["given"]))
                    case "asked": got = p.out()
                    case "iterated": got = tuple(p)
                    case "cast": got = Artifact.cast(p)
                new = got if isinstance(got, tuple) else (got,)
                if act["how"] == "given" and not all(same(self.arts[i - 1], o) for i, o in zip(act["given"], new)):
                    return {"put out": repr(new)}
                self.arts += new
                self.prints += [(a, a.fingerprint) for a in new]
            return {"ok": True}
        except ValueError:
            return {"ok": False}

    def check(self, t):
        T, V, A, FM, S = defs()
        if len(self.arts) != len(t["arts"]) or len(self.prods) != len(t["prods"]):
            return "how many there are"
        for i, (a, w) in enumerate(zip(self.arts, t["arts"])):
            o = a.producer_output
            if type(a) is not A[w["class"]] or a.type != T["Int64"]:
                return f"artifact {i + 1} is {a!r}"
            if (o is None) != (w["from"] == 0) or o is not None and (o.producer != self.prods[w["from"] - 1] or o.position != w["at"]):
                return f"artifact {i + 1} comes from {o!r}"
        if any(a.fingerprint != f for a, f in self.prints):
            return "fingerprints changed"
        for i, (p, w) in enumerate(zip(self.prods, t["prods"])):
            want = [self.arts[j - 1] for j in w["ins"]]
            if type(p) is not kinds()[w["kind"]] or list(p.inputs.values()) != want or any(a.producer_output != b.producer_output for a, b in zip(p.inputs.values(), want)):
                return f"producer {i + 1} is {p!r}"
        return None


def run(check):
    defs(), two(), kinds(), another()
    for which, size, fn in (("one", 1, one), ("args", 1, args), ("outs", check.pick(2, 3), outs)):
        items = tables.cases(check, "Instances", inv="Laws", consts=f'Which = "{which}"\n Size = {size}', workers=6, what=f"Instances: {which}")
        tables.compare(check, items, fn, what=which)
    r = tlc.run("Instances", workers=6, cfg_text=f'INIT HInit\nNEXT HNext\nCONSTANTS Which = "histories"\n Size = {check.pick(6, 7)}\nINVARIANTS HLaws\nACTION_CONSTRAINTS HEdge\nVIEW HView\nCHECK_DEADLOCK FALSE\n')
    check.spec(r, what="Instances: histories")
    init = key({"arts": [{"class": "Plain", "from": 0, "at": 0}, {"class": "AInt", "from": 0, "at": 0}], "prods": []})
    replay_lts(check, LTS(r.get("E")), [init], Pool, what="histories", max_len=60, limit=check.pick(1500, None))
