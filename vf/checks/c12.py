"""C12: the artifact namespace is a write-once tree that freezes with its graph (spec/Box.tla)."""
from __future__ import annotations

from collections.abc import Mapping

from vf import tlc
from vf.core import Check
from vf.replay import LTS, Adapter, key, replay_lts

CFG = """SPECIFICATION Spec
CONSTANTS Keys = {keys} Leaves = {leaves} Depth = {depth}
VIEW View
INVARIANTS TypeOK TreeShaped
PROPERTIES WriteOnce Frozen Pure RefusedAddsNothing
"""


def canon(e):
    for k in "st":
        e[k]["t"] = sorted(e[k]["t"])
    r = e["a"].get("res")
    if isinstance(r, dict) and "ns" in r:
        r["ns"] = sorted(r["ns"])
    return e


class BoxAdapter(Adapter):
    """The artifact box of a graph: frozen and thawed by leaving and entering the graph."""

    def __init__(self) -> None:
        from arti import Artifact, Graph
        from arti.formats.json import JSON
        from arti.storage.local import LocalFile
        from arti.types import Int64

        self.Artifact = Artifact
        self.g = Graph(name="box")
        self.g.__enter__()
        self.g.__exit__(None, None, None)
        self.open = False
        self.leaf = {
            i: Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=f"/nowhere/{i}.json"))
            for i in range(1, 4)
        }

    @property
    def box(self):
        return self.g.artifacts

    def value(self, v):
        if v["kind"] == "leaf":
            return self.leaf[v["id"]]
        if v["kind"] == "cast":
            return v["id"]  # a plain value, converted to a literal Artifact
        return object()

    def ident(self, artifact):
        storage = artifact.storage
        path = getattr(storage, "path", None)
        if path is not None:
            return int(path.removeprefix("/nowhere/").removesuffix(".json"))
        return int(storage.value)

    def node(self, x):
        if isinstance(x, self.Artifact):
            return {"leaf": self.ident(x)}
        assert isinstance(x, Mapping)
        assert len(x) == len(list(x)) == len(dict(x))
        return {"ns": sorted(x)}

    def assign(self, via, path, value):
        if via == "dotted":
            self.box[".".join(path)] = value
        else:
            b = self.box
            for k in path[:-1]:
                b = getattr(b, k) if via == "attr" else b[k]
            if via == "attr":
                setattr(b, path[-1], value)
            else:
                b[path[-1]] = value

    def lookup(self, via, path):
        if via == "dotted":
            return self.box[".".join(path)]
        b = self.box
        for k in path:
            b = getattr(b, k) if via == "attr" else b[k]
        return b

    def apply(self, a):
        op = a["op"]
        try:
            if op == "freeze":
                self.g.__exit__(None, None, None)
            elif op == "thaw":
                self.g.__enter__()
            elif op == "hash":
                if hash(self.box) != hash(self.box):
                    return "unstable"
            elif op == "set":
                self.assign(a["via"], a["path"], self.value(a["value"]))
            elif op == "setmap":
                self.assign(a["via"], a["path"], {k: self.value(v) for k, v in a["mapping"]})
            elif op == "setprivate":
                self.assign("dotted", [*a["path"][:-1], "_" + a["path"][-1]], self.leaf[1])
            elif op == "contains":
                return ".".join(a["path"]) in self.box
            elif op == "get":
                return self.node(self.lookup(a["via"], a["path"]))
            return "done"
        except Exception as e:
            if op == "get":
                # Lookups must fail the way mappings/attributes do, so .get()/hasattr()/`in` work.
                ok = {"dotted": KeyError, "attr": AttributeError, "item": (KeyError, TypeError, AttributeError)}
                return {"missing": True} if isinstance(e, ok[a["via"]]) else {"raised": type(e).__name__}
            return "refused"

    def state(self):
        import arti

        nodes = []

        def rec(prefix, box):
            for k, v in box.items():
                if isinstance(v, self.Artifact):
                    nodes.append([[*prefix, k], self.ident(v)])
                else:
                    nodes.append([[*prefix, k], 0])
                    rec([*prefix, k], v)

        rec([], self.box)
        walked = sorted((k, self.ident(v)) for k, v in self.box.walk())
        if walked != sorted((".".join(p), i) for p, i in nodes if i):
            return {"walk": walked, "nodes": nodes}
        return {"o": arti.context.graph is self.g, "t": sorted(nodes)}

    def close(self):
        import arti

        arti.context.graph = None


def run(check: Check) -> None:
    configs = [("2 keys, depth 2", '{"a", "b"}', "{1, 2}", 2, None)]
    if check.thorough:
        configs.append(("2 keys, depth 3", '{"a", "b"}', "{1}", 3, None))
        configs.append(("3 keys, depth 2", '{"a", "b", "c"}', "{1}", 2, None))
    else:
        configs.append(("1 key, depth 4", '{"a"}', "{1, 2}", 4, None))
    for what, keys, leaves, depth, limit in configs:
        cfg = CFG.format(keys=keys, leaves=leaves, depth=depth)
        check.spec(tlc.run("Box", cfg_text=cfg, workers=8), what=what)
        res = tlc.run("Box", cfg_text=cfg.split("INVARIANTS")[0] + "ACTION_CONSTRAINT Emit\n", workers=8)
        lts = LTS([canon(e) for e in res.get("E")])
        replay_lts(check, lts, [key({"o": False, "t": []})], BoxAdapter, what=what, max_len=80, limit=limit)
