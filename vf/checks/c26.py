"""C26: frozen mappings are immutable values with dictionary semantics (spec/Frozen.tla)."""
import copy
import pickle
from collections.abc import Mapping
from types import MappingProxyType

from arti.internal.mappings import FrozenMapping, frozendict
from arti.internal.models import Model

from vf import tables, tlc
from vf.replay import LTS, Adapter, key, replay_lts


class Sub(frozendict):
    """A kind of frozen mapping."""


class Mapped(Mapping):
    def __init__(self, pairs):
        self.pairs = dict(pairs)

    def __getitem__(self, k):
        return self.pairs[k]

    def __iter__(self):
        return iter(self.pairs)

    def __len__(self):
        return len(self.pairs)


class Holder(Model):
    f: FrozenMapping[str, int]


def pairs(m):
    return [(k, v) for k, v in m]


def seen(f):
    """All there is to see of a mapping."""
    d = dict(f.items())
    views = {"iter": list(f), "keys": list(f.keys()), "items": [k for k, _ in f.items()]}
    if len({key(v) for v in views.values()}) != 1 or list(f.values()) != list(d.values()) or [f[k] for k in f] != list(d.values()):
        return {"views differ": repr(views)}
    if f != d or d != f or repr(f) != repr(d) or not all(k in f for k in d) or f.get("nope", 7) != 7 or bool(f) != bool(d):
        return {"not like": repr(d)}
    return {"items": [list(x) for x in f.items()], "len": len(f)}


def source(how, q):
    q = pairs(q)
    return {"dict": lambda: dict(q), "pairs": lambda: list(q), "iterator": lambda: iter(q), "frozen": lambda: frozendict(q), "mapping": lambda: Mapped(q),
            "items": lambda: MappingProxyType(dict(q))}[how]()


def case(c):
    if c["op"] == "build":
        got = []
        for cls in (frozendict, Sub):
            src = source(c["from"], c["q"])
            f = cls(src, **dict(pairs(c["kw"])))
            if type(f) is not cls:
                return {"type": repr(type(f))}
            got.append(seen(f))
            if isinstance(src, (dict, list)):
                src.clear()
                if seen(f) != got[-1]:
                    return {"followed its source": seen(f)}
        if not c["kw"]:
            # Fields of models take mappings of all kinds
            if c["from"] in ("dict", "frozen", "mapping"):
                src = source(c["from"], c["q"])
                h = Holder(f=src)
                got.append(seen(h.f))
                if not isinstance(h.f, frozendict):
                    return {"field": repr(type(h.f))}
                if isinstance(src, dict):
                    src.clear()
                    got.append(seen(h.f))
        return got[0] if all(g == got[0] for g in got) else {"several": got}
    if c["op"] == "pair":
        l, r = pairs(c["l"]), pairs(c["r"])
        a, b, s = frozendict(l), frozendict(r), Sub(r)
        eq = a == b
        if len({eq, b == a, not a != b, a == dict(r), dict(l) == b, a == s, Holder(f=a) == Holder(f=b), a in [b], a in {b: 1}, len({a, b}) == 1}) != 1:
            return {"eq": "inconsistent"}
        if eq and hash(a) != hash(b):
            return {"eq": eq, "hash": "differs"}
        if hash(a) != hash(frozendict(l)) or a == 1 or a == [*l] and l:
            return {"hash": "unstable"}
        return {"eq": eq, "same_order": eq and list(a) == list(b)}
    l, r = pairs(c["l"]), pairs(c["r"])
    other = {"frozen": frozendict, "dict": dict, "sub": Sub, "mapping": Mapped}[c["with"]]
    # The frozen operand is left or right of another mapping.
    a, b = (frozendict(l), other(r)) if c["side"] == "left" else (other(l), frozendict(r))
    m = a | b
    if type(m) is not (Sub if c["side"] == "right" and c["with"] == "sub" else frozendict) and not (c["with"] == "sub" and isinstance(m, frozendict)):
        return {"type": repr(type(m))}
    if list(a.items()) != l or list(b.items()) != r:
        return {"operands": [repr(a), repr(b)]}
    if c["with"] in ("frozen", "dict", "sub") and c["side"] == "left":
        s = Sub(l) | b
        if type(s) is not Sub or seen(s) != seen(m):
            return {"subclass": repr(s)}
        s = Sub(l)
        t = s
        t |= b
        if s is t or type(t) is not Sub or seen(t) != seen(m) or list(s.items()) != l:
            return {"in place": repr(t)}
    return seen(m)


class History(Adapter):
    def __init__(self):
        self.src, self.at = {}, {"f": None, "g": None}

    def get(self, n):
        return self.src if n == "src" else self.at[n]

    def apply(self, a):
        op = a["op"]
        if op == "set":
            self.src[a["k"]] = a["v"]
        elif op == "del":
            del self.src[a["k"]]
        elif op == "freeze":
            self.at[a["to"]] = frozendict(self.src)
        elif op == "merge":
            self.at[a["to"]] = self.get(a["l"]) | self.get(a["r"])
        elif op == "copy":
            f = self.at[a["of"]]
            self.at[a["to"]] = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "again": frozendict,
                                "dict": lambda x: frozendict(dict(x)), "or": lambda x: x | {}}[a["how"]](f)
        elif op == "look":
            f = self.at[a["of"]]
            try:
                v = f[a["k"]]
            except KeyError:
                return {"there": a["k"] in f or f.get(a["k"]) is not None}
            return {"there": a["k"] in f, "v": v if f.get(a["k"]) == v else "?"}
        else:
            f = self.at[a["of"]]

            def put():
                f["a"] = 9

            def drop():
                del f["a"]

            def ior():
                x = f
                x |= {"z": 1}
                if x is f:
                    return
                raise TypeError
            act = {"set": put, "del": drop, "clear": lambda: f.clear(), "update": lambda: f.update({"z": 1}), "pop": lambda: f.pop("a", None), "popitem": lambda: f.popitem(),
                   "setdefault": lambda: f.setdefault("z", 1), "ior_in_place": ior}[a["what"]]
            try:
                act()
                return False
            except (TypeError, AttributeError):
                return True
        return None

    def check(self, t):
        if [list(x) for x in self.src.items()] != t["src"]:
            return f"src is {self.src}, not {t['src']}"
        for n in ("f", "g"):
            f = self.at[n]
            if f is None:
                continue
            if type(f) is not frozendict or seen(f) != {"items": t[n], "len": len(t[n])} or hash(f) != hash(frozendict(pairs(t[n]))):
                return f"{n} is {f!r}, not {t[n]}"
        return None


def refused(check):
    for what, bad in {"list": [1], "dict": {"a": 1}, "set": {1}, "nested": ([1],), "bytearray": bytearray(b"")}.items():
        for how, act in {"value": lambda: frozendict({"a": 1, "b": bad}), "pairs": lambda: frozendict([("a", bad)]), "keyword": lambda: frozendict(a=bad),
                         "left": lambda: frozendict(a=1) | {"b": bad}, "right": lambda: {"b": bad} | frozendict(a=1), "subclass": lambda: Sub(a=bad)}.items():
            try:
                act()
                check.violation(f"unhashable {what} accepted as {how}", {"what": what, "how": how})
            except TypeError:
                pass
            check.count("refusals")
    for bad in (1, None):
        for act in (lambda: frozendict(a=1) | bad, lambda: bad | frozendict(a=1), lambda: frozendict(bad)):
            try:
                act()
                check.violation(f"{bad!r} taken for a mapping", {})
            except TypeError:
                pass
            check.count("refusals")


def run(check):
    consts = f"MaxPairs = {check.pick(3, 4)} MaxSize = {check.pick(2, 3)}"
    for init, what in (("BuildInit", "built"), ("MergeInit", "merged"), ("PairInit", "pairs")):
        items = tables.cases(check, "Frozen", inv="Laws", init=init, consts=consts, what=f"Frozen: {what}")
        tables.compare(check, items, case, what=what)
    r = tlc.run("Frozen", workers=4, cfg_text=f"INIT HInit\nNEXT HNext\nCONSTANTS {consts}\nINVARIANTS HLaws\nCHECK_DEADLOCK FALSE\n")
    check.spec(r, what="Frozen: histories")
    none = [["none", 0]]
    replay_lts(check, LTS(r.get("E")), [key({"src": [], "f": none, "g": none})], History, what="histories", max_len=80, limit=check.pick(400, None))
    refused(check)
