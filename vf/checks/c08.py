"""C08: any acyclic graph builds in dependency order and routes every output."""
import json
from collections import Counter

from vf import engine, tables, tlc
from vf.replay import key


def realise(prog, rng):
    """The definition on a real graph: outputs assigned by one or several `.out` calls, unpacking or repeatedly."""
    from arti import Graph
    from arti.formats.json import JSON
    from arti.storage.literal import StringLiteral
    from arti.versions import SemVer
    Un, _ = engine.artifact_classes()
    names = [rng.choice(["a{}", "n.b{}", "n.m.c{}", "z{}.y"]).format(i) for i in range(1, len(prog["arts"]) + 1)]
    g = Graph(name="g", backend=engine.spy_backend())
    arts = {}

    def assign(n, value):
        path = names[n - 1]
        if rng.random() < 0.5:
            g.artifacts[path] = value
        else:
            box, *rest = g.artifacts, *path.split(".")
            for p in rest[:-1]:
                box = getattr(box, p)
            setattr(box, rest[-1], value)
        arts[n] = g.artifacts[path]

    def lit():
        return Un(format=JSON(), storage=StringLiteral())

    with g:
        for n, a in enumerate(prog["arts"], 1):
            if a["raw"]:
                assign(n, Un(format=JSON(), storage=StringLiteral(value=json.dumps([{"v": n}]))))
        for p, P in enumerate(prog["prods"], 1):
            inst = engine.producer_class(P["cls"], P, [False] * len(P["ins"]), False)(
                version=SemVer(major=1, minor=0, patch=0), **{f"i{j}": arts[i] for j, i in enumerate(P["ins"])})
            mine = [n for n, a in enumerate(prog["arts"], 1) if a["prod"] == p]
            how = rng.randrange(3)
            if how == 0:        # one `.out` for all of them; an output may go to several keys
                o = inst.out(*[lit() for _ in range(P["nout"])])
                o = o if isinstance(o, tuple) else (o,)
                for n in mine:
                    assign(n, o[prog["arts"][n - 1]["pos"] - 1])
            elif how == 1:      # one `.out` each
                for n in mine:
                    o = inst.out(*[lit() for _ in range(P["nout"])])
                    assign(n, (o if isinstance(o, tuple) else (o,))[prog["arts"][n - 1]["pos"] - 1])
            else:               # the same with equal producers defined again
                for n in mine:
                    again = type(inst)(version=inst.version, **{f"i{j}": arts[i] for j, i in enumerate(P["ins"])})
                    o = again.out(*[lit() for _ in range(P["nout"])])
                    assign(n, (o if isinstance(o, tuple) else (o,))[prog["arts"][n - 1]["pos"] - 1])
    return g, arts


def observe(c):
    import random
    from arti import Artifact
    prog = c
    rng = random.Random(key(c))
    engine.LOG = L = engine.Log()
    engine._CACHE["version_of"] = lambda cls: 1
    engine._CACHE["outs_of"] = lambda cls: 0
    engine._CACHE.pop("reject", None)
    g, arts = realise(prog, rng)
    number = {id(a): n for n, a in arts.items()}
    at = {g.artifact_to_key[a]: n for n, a in arts.items()}

    def art(a):
        return at[g.artifact_to_key[a]]

    def prod(p):
        return [type(p).__name__, [art(getattr(p, f"i{j}")) for j in range(len(p.inputs))]]

    deps = g.dependencies
    got = {
        "producers": sorted((prod(p) for p in g.producers), key=key),
        "outputs": sorted(({"p": prod(p), "of": sorted([art(a), a.producer_output.position + 1] for a in outs)}
                           for p, outs in g.producer_outputs.items()), key=key),
        "artdeps": {str(art(n)): [prod(p) for p in d] for n, d in deps.items() if isinstance(n, Artifact)},
        "proddeps": sorted(({"p": prod(n), "on": sorted(art(a) for a in d)}
                            for n, d in deps.items() if not isinstance(n, Artifact)), key=key),
    }
    s = g.build() if rng.random() < 0.5 else g.snapshot().build()
    got["values"] = [[r["v"] for r in (s if rng.random() < 0.5 else g).read(arts[n], annotation=list)]
                     for n in sorted(arts)]
    got["runs"] = sorted([x["cls"], [v for v in x["args"]]] for x in L.execs)
    # order: an execution only after those its inputs come from
    return got


def same(want, got):
    n = len(want["values"])
    vals = [[v] for v in (want["values"] if isinstance(want["values"], list) else [want["values"][str(i + 1)] for i in range(n)])]
    flat = [v[0] for v in vals]
    w = {
        "producers": sorted(want["producers"], key=key),
        "outputs": sorted(({"p": o["p"], "of": sorted(o["of"])} for o in want["outputs"]), key=key),
        "artdeps": {str(i + 1): ([] if d == [] else [d]) for i, d in enumerate(want["artdeps"])},
        "proddeps": sorted(({"p": o["p"], "on": sorted(o["on"])} for o in want["proddeps"]), key=key),
        "values": vals,
        "runs": sorted([p[0], [[flat[i - 1]] for i in p[1]]] for p in want["producers"]),
    }
    # Executions alike in class and input values are shared: the second one is found finished.
    if key({k: v for k, v in got.items() if k != "runs"}) != key({k: v for k, v in w.items() if k != "runs"}):
        return False
    a, b = Counter(map(key, got["runs"])), Counter(map(key, w["runs"]))
    return set(a) == set(b) and all(a[x] <= b[x] for x in a)


def run(check):
    small = tables.cases(check, "Graphs", what="Graphs: up to 2 producers", workers=8,
                         consts=f"MaxRaw = 2 MaxProd = 2 MaxIns = 2 MaxOut = 2 MaxAssigned = {check.pick(2, 3)} MaxArts = 6")
    engine.artifact_classes()
    if len(small) > check.pick(2500, 30000):
        small = check.rng.sample(small, check.pick(2500, 30000))
        check.exhaustive = False
    tables.compare(check, small, observe, what="small_graphs", same=same)
    r = tlc.run("Graphs", simulate=check.pick(500, 8000), depth=7, seed=check.seed, workers=4, cfg_text=(
        "INIT Init\nNEXT RNext\nCONSTANTS MaxRaw = 2 MaxProd = 5 MaxIns = 3 MaxOut = 3 MaxAssigned = 4 MaxArts = 12\n"
        "INVARIANTS Laws EmitDone\nCHECK_DEADLOCK FALSE\n"))
    check.spec(r, what="Graphs: simulation, up to 5 producers")
    big = list({key(x): x for x in r.get("C")}.values())
    tables.compare(check, big, observe, what="larger_graphs", same=same)
    engine.campaign(check, what="histories", n=check.pick(150, 2000), ops=check.pick(5, 10), size=(4, 10))
