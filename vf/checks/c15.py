"""C15: models are immutable values with stable identity (spec/Models.tla)."""
import copy
import pickle
from typing import Annotated, Any, Literal

from arti import Annotation, Artifact, Fingerprint, Format, PartitionField, Producer, Storage, Type, Version, View
from arti.internal.mappings import FrozenMapping
from arti.internal.models import Model

from vf import elsewhere, models, tables, tlc
from vf.models import CLASSES, N, P, Q, S, kwargs, make
from vf.replay import LTS, Adapter, key, parallel, replay_lts


def reordered(v):
    """Fields given in another order, everything inside too."""
    return CLASSES[v["cls"]](**dict(reversed(kwargs(v, reordered).items())))


def looked(m):
    m.fingerprint, hash(m), repr(m), m.model_dump(), m.model_dump_json(), m == m
    return m


def minimal(v):
    """Without the fields that have the default value anyway."""
    cls = CLASSES[v["cls"]]
    kw = kwargs(v, minimal)
    full = make(v)
    for n, f in cls.model_fields.items():
        if n in kw and not f.is_required() and f.get_default(call_default_factory=True) == getattr(full, n):
            del kw[n]
    return cls(**kw)


MAKES = {
    "reordered": reordered, "minimal": minimal, "copied": lambda v: looked(make(v)).model_copy(), "deep": lambda v: make(v).model_copy(deep=True),
    "copy": lambda v: copy.copy(looked(make(v))), "deepcopy": lambda v: copy.deepcopy(looked(make(v))),
    "pickled": lambda v: pickle.loads(pickle.dumps(make(v))), "pickled_looked": lambda v: pickle.loads(pickle.dumps(looked(make(v)))),
    "looked": lambda v: looked(make(v)), "validated": lambda v: CLASSES[v["cls"]].model_validate(kwargs(v)), "revalidated": lambda v: CLASSES[v["cls"]].model_validate(make(v)),
    "noted": lambda v: make(v).model_copy(update={}),
}


def ident(m):
    """What one can tell apart."""
    return {"fp": str(int(m.fingerprint)), "json": m.model_dump_json()}


def identity(v):
    a = make(v)
    base = ident(a)
    for how, fn in MAKES.items():
        b = fn(v)
        if ident(b) != base or b != a or a != b or hash(a) != hash(b) or type(a) is not type(b):
            return tables.Wrong({"made": how, "of": v, "is": ident(b), "instead of": base, "equal": a == b, "same hash": hash(a) == hash(b)})
    if ident(a) != base:
        return tables.Wrong({"changed by use": ident(a), "was": base})
    return base["fp"]


def quick_id(v):
    return ident(make(v))["fp"]


def changed(pair):
    """Copying with changes is constructing with them."""
    v, w = pair
    want = make(w)
    for prep in (lambda m: m, looked, lambda m: pickle.loads(pickle.dumps(looked(m)))):
        for deep in (False, True):
            m = prep(make(v))
            now = {n: getattr(want, n) for n in w["f"] or {} if w["f"][n] != v["f"][n]}
            got = m.model_copy(update=now, deep=deep)
            if got != want or want != got or hash(got) != hash(want) or ident(got) != ident(want):
                return {"copied": ident(got), "constructed": ident(want), "equal": got == want}
            if ident(m) != ident(make(v)) or m != make(v):
                return {"the original is now": ident(m), "was": ident(make(v))}
    return None


class Thing:
    pass


P0 = P(x=1)
VALUES = {"int": 7, "true": True, "str": "s", "float": 1.5, "none": None, "list": [1], "tuple_int": (1, 2), "tuple_str": ("a",), "tuple_p": (P0, Q(x=2)), "tuple_list": ([1],),
          "dict_int": {"a": 1}, "dict_str": {"a": "b"}, "set": {1}, "P": P0, "Q": Q(x=1), "S": S(x=1), "N": N(m=P0), "type": int, "fp": Fingerprint.from_int(3), "bytes": b"s",
          "object": Thing(), "r": "r", "big": 2**70}
HINTS = {"int": int, "str": str, "bool": bool, "int|none": int | None, "float": float, "literal": Literal["r", "w"], "P": P, "P|none": P | None, "tuple[int]": tuple[int, ...],
         "tuple[P]": tuple[P, ...], "map[int]": FrozenMapping[str, int], "Fingerprint": Fingerprint, "any": Any}


def offer(c):
    hint, value = HINTS[c["hint"]], VALUES[c["offer"]]
    ns = {"__module__": __name__}
    if c["how"] == "default":
        cls = type("D", (Model,), {**ns, "__annotations__": {"v": hint}, "v": value})
    else:
        cls = type("D", (Model,), {**ns, "__annotations__": {"v": hint}})
        if c["how"] == "subclass":
            cls = type("D2", (cls,), {**ns, "__annotations__": {"w": int}, "w": 1})
    try:
        if c["how"] == "default":
            got = cls().v
        elif c["how"] == "nested":
            got = type("E", (Model,), {**ns, "__annotations__": {"d": cls}})(d=cls(v=value)).d.v
        else:
            got = cls(v=value).v
    except (ValueError, TypeError):
        return False
    return True if got == value else f"became {got!r}"


def never(check):
    """What no model allows."""
    class Abstract(Model):
        _abstract_ = True
        x: int = 1

    class Concrete(Abstract):
        pass

    class Again(Concrete):
        _abstract_ = True

    class Finally(Again):
        pass

    class Open(Type):
        pass

    for cls, ok in [(Model, False), (Abstract, False), (Concrete, True), (Again, False), (Finally, True), (Type, False), (Open, True), (Format, False), (Storage, False),
                    (Version, False), (PartitionField, False), (Annotation, False), (View, False), (Producer, False)]:
        for again in range(2):
            try:
                cls()
                got = True
            except (TypeError, ValueError) as e:
                got = False
                if not ok and "cannot be instantiated directly" not in str(e):
                    got = repr(e)
            if got != ok:
                check.violation(f"{cls.__name__}() {'refused' if ok else 'allowed'}: {got}", {"class": cls.__name__})
            check.count("instantiations")
    for base in (P, S, N, Type, Artifact):
        try:
            type("Thawed", (base,), {"__module__": __name__, "__annotations__": {}, "model_config": {"frozen": False}})
        except ValueError:
            pass
        else:
            check.violation(f"a mutable subclass of {base.__name__} was accepted", {})


def frozen(v):
    m = make(v)
    before = ident(m), repr(m)
    for n in list(type(m).model_fields):
        for act in (lambda: setattr(m, n, getattr(m, n)), lambda: setattr(m, n, None), lambda: delattr(m, n)):
            try:
                act()
                return {"mutated": n}
            except (ValueError, TypeError, AttributeError):
                pass
    for extra in ("other", "fingerprint_", "nullable_"):
        try:
            CLASSES[v["cls"]](**kwargs(v), **{extra: 1})
            return {"accepted": extra}
        except ValueError:
            pass
        try:
            setattr(m, extra, 1)
            return {"set": extra}
        except (ValueError, TypeError, AttributeError):
            pass
    for n, f in type(m).model_fields.items():
        if f.is_required():
            kw = kwargs(v)
            del kw[n]
            try:
                CLASSES[v["cls"]](**kw)
                return {"accepted without": n}
            except ValueError:
                pass
        try:
            CLASSES[v["cls"]](**{**kwargs(v), n: Thing()})
            return {"accepted a thing for": n}
        except (ValueError, TypeError, AttributeError):
            pass
    return None if before == (ident(m), repr(m)) else {"changed": v}


class History(Adapter):
    def __init__(self):
        self.at = {"a": None, "b": None}

    def close(self):
        pass

    def apply(self, a):
        op, at = a["op"], self.at
        if op == "new":
            at[a["to"]] = make(a["v"])
        elif op == "use":
            looked(at[a["of"]])
        elif op == "compare":
            x, y = at["a"], at["b"]
            same = x.model_dump() == y.model_dump() and type(x) is type(y)
            eq = x == y
            if eq != (not x != y) or eq != (y == x) or len({x, y}) != (1 if eq else 2):
                return {"eq": "inconsistent"}
            return {"eq": eq, "hash": eq if not eq else hash(x) == hash(y), "fp": x.fingerprint == y.fingerprint}
        elif op == "copy":
            m = at[a["of"]]
            at[a["to"]] = {"copy": copy.copy, "deep": copy.deepcopy, "pickle": lambda m: pickle.loads(pickle.dumps(m)), "model": lambda m: m.model_copy(),
                           "modeldeep": lambda m: m.model_copy(deep=True)}[a["how"]](m)
        elif op == "change":
            by = a["by"] or {}
            at[a["to"]] = at[a["of"]].model_copy(update={n: models.plain(x) for n, x in by.items()}, deep=a["deep"])
        else:
            m = at[a["of"]]
            f = {P: "x", S: "x", N: "label"}[type(m)]
            act = {"set": lambda: setattr(m, f, getattr(m, f)), "delete": lambda: delattr(m, f), "new_field": lambda: setattr(m, "other", 1),
                   "setprivate_none": lambda: setattr(m, "fingerprint_", 1), "inner": lambda: setattr(m.m, "x", 5),
                   "unhashable": lambda: m.model_copy(update={f: [1]})}[a["what"]]
            try:
                act()
                return "allowed"
            except (ValueError, TypeError, AttributeError):
                return "refused"
        return None

    def state(self):
        return None

    def check(self, t):
        for s in ("a", "b"):
            v, m = t[s]["v"], self.at[s]
            if "gone" in v:
                continue
            fresh = make(v)
            # (looking must not disturb what was not looked at)
            probe = m if t[s]["used"] else copy.copy(m)
            if probe != fresh or hash(probe) != hash(fresh) or ident(probe) != ident(fresh):
                return f"{s} should be {fresh!r}, is {m!r} with {ident(probe)}"
        return None


def run(check):
    for which in ("synthetic", "system"):
        items = tables.cases(check, "Models", inv="ValueEmit", init="ValueInit", emit="", consts=f'Which = "{which}"', what=f"Models: {which} values")
        tables.classes(check, items, identity, what=f"{which}_identity")
        terms = [x["c"] for x in items]
        elsewhere.compare(check, "vf.checks.c15", "quick_id", terms, tables._pmap(quick_id, terms), what=f"{which}_identity")
        built = [make(v) for v in terms]
        for n, a in enumerate(built):
            for m, b in enumerate(built):
                if (a == b) != (n == m) or (a != b) != (n != m):
                    check.violation(f"equality: {terms[n]} and {terms[m]}", {"a": terms[n], "b": terms[m], "equal": a == b})
        check.count(f"{which}_pairs", len(built) ** 2)
        if len(set(built)) != len(built) or any({m: n for n, m in enumerate(built)}.get(make(v)) != n for n, v in enumerate(terms[:60])):
            check.violation(f"{which} models as keys", {"values": len(built), "keys": len(set(built))})
        # Artifacts revisit formats and storages when constructed, so copies of them with other types are not reconstructions.
        by = {}
        for v in terms:
            by.setdefault(v["cls"], []).append(v)
        pairs = [(v, w) for vs in by.values() for v in vs for w in vs if v is not w and v["cls"] not in ("Artifact", "Num")]
        if len(pairs) > check.pick(6000, 10**9):
            pairs = check.rng.sample(pairs, 6000)
        tables.compare(check, [{"c": p, "want": None} for p in pairs], changed, what=f"{which}_changes")
        tables.compare(check, [{"c": v, "want": None} for v in terms], frozen, what=f"{which}_frozen")
    items = tables.cases(check, "Models", inv="OfferEmit", init="OfferInit", emit="", consts='Which = "system"', what="Models: offers")
    tables.compare(check, items, offer, what="offers")
    never(check)
    r = tlc.run("Models", workers=4, cfg_text='INIT HInit\nNEXT HNext\nCONSTANTS Which = "system"\nINVARIANTS HLaws\nCHECK_DEADLOCK FALSE\n')
    check.spec(r, what="Models: histories")
    gone = {"v": {"gone": 0}, "used": False}
    replay_lts(check, LTS(r.get("E")), [key({"a": gone, "b": gone})], History, what="histories", max_len=60, limit=check.pick(400, None))
