"""C11: a graph can be used only once defined, and defined by one scope at a time."""
import copy
import pickle
import random
from concurrent.futures import ThreadPoolExecutor
from typing import Annotated

from arti import Artifact, Graph, Type, producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Int64

from vf import tlc
from vf.core import Scratch
from vf.replay import LTS, Adapter, key, replay_lts


class Num(Artifact):
    type: Type = Int64()


def add(x):
    return x + 1


add.__annotations__ = {"x": Annotated[int, Num], "return": Annotated[int, Num]}
Add = producer(name="Add")(add)
VALUES = {"x": 3, "y": 30, "p": 4, "q": 5}


class MyError(Exception):
    pass


def assign(g, k, root):
    a = g.artifacts
    if k in ("x", "y"):
        a[k] = Num(format=JSON(), storage=StringLiteral(value=str(VALUES[k])))
    elif k == "p":
        a.p = Add(x=a.x).out(Num(format=JSON(), storage=LocalFile.rooted_at(root)))
    elif k == "q":
        a["n.q"] = Add(x=a.p).out(Num(format=JSON(), storage=LocalFile.rooted_at(root)))


def fresh(content, root, name="g", backend=None):
    with Graph(name=name, backend=backend or MemoryBackend()) as g:
        for k in ("x", "y", "p", "q"):
            if k in content:
                assign(g, k, root)
    return g


def facts(g):
    """What can be told about a finished graph."""
    key_of = {a: k for k, a in g.artifacts.walk()}
    assert {a: g.artifact_to_key[a] for a in key_of} == key_of
    name = lambda n: key_of[n] if n in key_of else f"producer of {sorted(key_of[a] for a in g.producer_outputs[n])}"
    out = {
        "keys": sorted(key_of.values()),
        "fingerprint": str(g.fingerprint),
        "dependencies": sorted((name(n), sorted(map(name, d))) for n, d in g.dependencies.items()),
        "producers": sorted(map(name, g.producers)),
        "snapshot": str(g.snapshot().id),
        "snapshot fingerprint": str(g.snapshot().fingerprint),
    }
    s = g.build()
    out["built"] = str(s.id)
    out["read"] = {k: g.read(a, annotation=int) for a, k in key_of.items()}
    out["snapshot read"] = {k: s.read(a, annotation=int) for a, k in key_of.items()}
    return out


class Scopes(Adapter):
    def __init__(self):
        self.scratch = Scratch()
        self.dir = self.scratch.__enter__()
        self.threads = {}
        self.graphs = {}
        self.rng = random.Random(5)

    def close(self):
        for t in self.threads.values():
            t.shutdown()
        self.scratch.__exit__()

    def graph(self, g):
        if g not in self.graphs:
            self.graphs[g] = Graph(name=f"g{g}")
        return self.graphs[g]

    def apply(self, a):
        self.rng = random.Random(key([a, self.rng.random()]))
        if a["t"] not in self.threads:
            self.threads[a["t"]] = ThreadPoolExecutor(1)
        return self.threads[a["t"]].submit(self.do, a).result()

    def do(self, a):
        op, g = a["op"], self.graph(a["g"])
        root = self.dir / f"g{a['g']}"
        if op == "open":
            try:
                got = g.__enter__()
            except ValueError:
                return False
            return got is g
        if op == "close":
            err = MyError("on the way") if a["how"] == "error" else None
            try:
                swallowed = g.__exit__(type(err) if err else None, err, None)
            except ValueError:
                return "an error"
            if err is None:
                return "fine"
            return "swallowed" if swallowed else "the error"
        if op == "assign":
            try:
                assign(g, a["k"], root)
            except (ValueError, KeyError):
                return False
            return True
        if op == "inspect":
            todo = [lambda: g.fingerprint, lambda: g.artifact_to_key, lambda: repr(g), lambda: hash(g), lambda: g == self.graph(1),
                    lambda: g.model_dump_json(), lambda: list(g.artifacts.walk()), lambda: "nothing.here" in g.artifacts,
                    lambda: g.path_tags]
            for f in self.rng.sample(todo, 4):
                try:
                    f()
                except ValueError:
                    pass
            for name in self.rng.sample(["dependencies", "producers", "producer_outputs"], 2):
                try:
                    getattr(g, name)
                except ValueError:
                    pass
            return True
        if op == "use":
            return self.use(g, a["content"])
        if op == "compare":
            with ThreadPoolExecutor(1) as other:
                want = other.submit(lambda: facts(fresh(a["content"], root, g.name))).result()
            got = facts(g)
            bad = {k: {"expected": want[k], "got": got[k]} for k in want if want[k] != got[k]}
            return bad or "same"
        if op == "copy":
            self.graphs[a["g"]] = pickle.loads(pickle.dumps(g)) if a["how"] == "pickle" else copy.deepcopy(g)
            return True
        raise AssertionError(op)

    def use(self, g, content):
        art = dict(g.artifacts.walk())
        some = next(iter(art.values()), None)
        ops = {
            "dependencies": lambda: g.dependencies, "producers": lambda: g.producers, "producer_outputs": lambda: g.producer_outputs,
            "snapshot": lambda: g.snapshot(), "build": lambda: g.build(),
        }
        if some is not None:
            ops["read"] = lambda: g.read(art[self.rng.choice([k for k in art if k in ("x", "y")])], annotation=int)
            if "p" in content:
                # (writing what is there already)
                from arti import Fingerprint
                ops["write"] = lambda: g.write(0, artifact=art["p"], input_fingerprint=Fingerprint.from_int(self.rng.randrange(10**6)))
        got = {}
        for name in self.rng.sample(sorted(ops), len(ops)):
            try:
                ops[name]()
            except ValueError as e:
                got[name] = "refused"
            else:
                got[name] = "works"
        kinds = set(got.values())
        return kinds.pop() if len(kinds) == 1 else got

    def same(self, expected, got):
        return key(expected) == key(got)


def canonical(s):
    listed = lambda m: {str(k): v for k, v in (enumerate(m, 1) if isinstance(m, list) else m.items())}
    return {"ctx": listed(s["ctx"]), "content": {k: sorted(v) for k, v in listed(s["content"]).items()},
            "closed": listed(s["closed"]), "begun": listed(s["begun"])}


def explore(check, what, threads, graphs, limit, max_len=40):
    r = tlc.run("Lifecycle", workers=4, cfg_text=(
        f"INIT Init\nNEXT Next\nCONSTANTS Threads = {{{threads}}} GraphIds = {{{graphs}}} Copies = {{\"pickle\", \"deepcopy\"}}\n"
        "INVARIANTS Laws\nPROPERTIES Frozen Scoped Independent\nCHECK_DEADLOCK FALSE\n"))
    check.spec(r, what=f"Lifecycle: {what}")
    lts = LTS([{"s": canonical(e["s"]), "a": e["a"], "t": canonical(e["t"])} for e in r.get("E")])
    init = next(s for s in lts.out if '"begun": {"1": false' in s and "true" not in s)
    replay_lts(check, lts, [init], Scopes, what=what, limit=limit, max_len=max_len)


def run(check):
    explore(check, "one thread, one graph", "1", "1", None)
    explore(check, "one thread, two graphs", "1", "1, 2", check.pick(600, None))
    explore(check, "two threads, one graph", "1, 2", "1", check.pick(600, None))
    explore(check, "two threads, two graphs", "1, 2", "1, 2", check.pick(1000, 12000))
