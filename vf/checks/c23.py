"""C23: registries, type adapters and dispatch pick the most specific match (spec/Registry.tla)."""
import functools
from collections.abc import Sequence
from typing import Any

from vf import tables


# ---- registries ----
def registries(c):
    """The same registrations in every registry there is."""
    from arti.internal.utils import register
    ops, ranked = c["ops"], c["kind"] == "ranked"
    outs = {}

    def note(name, step, reg, of):
        out, made = [], []
        for i, op in enumerate(ops, 1):
            was = dict(reg())
            try:
                v = step(i, op)
                out.append("ok")
            except ValueError:
                v = None
                out.append("refused")
                if dict(reg()) != was:
                    outs[name] = "changed by what is refused"
                    return
            made.append(v)
        r = {k: next((i for i, v in enumerate(made, 1) if v is not None and of(k) is v), 0) for k in ("k1", "k2")}
        outs[name] = {"out": out, "reg": r}

    class V:
        def __init__(self, p):
            self.p = p

    plain = {"k0": "kept"}
    note("register", lambda i, op: register(plain, op["key"], V(op["p"]), *((lambda v: v.p,) if ranked else ())), lambda: plain, lambda k: plain.get(k))
    if plain.get("k0") != "kept":
        return "changed another key"
    if ranked:
        from arti import View
        from arti.types.python import python_type_system
        pys = {k: type(k, (), {}) for k in ("k1", "k2")}
        kept = dict(View._by_python_type_)

        def view(i, op):
            return type(f"V{i}", (View,), {"__module__": __name__, "python_type": pys[op["key"]], "type_system": python_type_system, "priority": op["p"]})

        def view_of(k):
            try:
                return View.get_class_for(pys[k])
            except ValueError:
                return None
        try:
            note("views", view, lambda: View._by_python_type_, view_of)
        finally:
            View._by_python_type_.clear()
            View._by_python_type_.update(kept)
    else:
        from arti import types as at
        from arti.internal.mappings import frozendict
        from arti.partitions import PartitionField
        from arti.types import TypeAdapter, TypeSystem
        ts = TypeSystem(key="ts")
        pys = {k: type(k, (), {}) for k in ("k1", "k2")}

        def adapter(i, op):
            return ts.register_adapter(type(f"Ad{i}", (TypeAdapter,), {"key": op["key"], "priority": op["p"], "artigraph": at.Int64,
                                                                       "matches_system": classmethod(lambda cls, t, *, hints: t is pys[op["key"]]),
                                                                       "to_artigraph": classmethod(lambda cls, t, *, hints, type_system: cls)}))

        def adapter_of(k):
            try:
                return ts.to_artigraph(pys[k], hints={})
            except NotImplementedError:
                return None
        note("adapters", adapter, lambda: ts._adapter_by_key, adapter_of)
        kinds = {k: type(k, (at.Type,), {}) for k in ("k1", "k2")}
        kept = dict(PartitionField._by_type_)

        def field(i, op):
            return type(f"F{i}", (PartitionField,), {"__module__": __name__, "__annotations__": {"value": int}, "default_components": frozendict(value="value"), "matching_type": kinds[op["key"]]})

        def field_of(k):
            try:
                return PartitionField.get_class_for(kinds[k]())
            except KeyError:
                return None
        try:
            note("fields", field, lambda: PartitionField._by_type_, field_of)
        finally:
            PartitionField._by_type_.clear()
            PartitionField._by_type_.update(kept)
    first = outs["register"]
    return first if all(o == first for o in outs.values()) else outs


# ---- type systems ----
@functools.cache
def sysdefs():
    from arti import types as at

    class X: pass
    class Y(X): pass
    class Z: pass
    class T(at.Type): pass
    class U(T): pass
    class W(at.Type): pass
    return {"X": X, "Y": Y, "Z": Z}, {"T": T, "U": U, "W": W}


def systems(c):
    from arti import types as at
    from arti.internal.type_hints import lenient_issubclass
    from arti.types import TypeAdapter, TypeSystem, _ScalarClassTypeAdapter
    ss, ts = sysdefs()
    hints = {"a": object()}
    seen = []

    class Scalar(_ScalarClassTypeAdapter):
        @classmethod
        def matches_system(cls, type_, *, hints):
            seen.append(hints)
            return super().matches_system(type_, hints=hints)

        @classmethod
        def matches_artigraph(cls, type_, *, hints):
            seen.append(hints)
            return super().matches_artigraph(type_, hints=hints)

        @classmethod
        def to_artigraph(cls, type_, *, hints, type_system):
            seen.append(hints)
            return super().to_artigraph(type_, hints=hints, type_system=type_system)

    class Lists(TypeAdapter):
        artigraph, system = at.List, list

        @classmethod
        def matches_system(cls, type_, *, hints):
            return getattr(type_, "__origin__", None) is list

        @classmethod
        def to_artigraph(cls, type_, *, hints, type_system):
            return at.List(element=type_system.to_artigraph(type_.__args__[0], hints=hints))

        @classmethod
        def to_system(cls, type_, *, hints, type_system):
            return list[type_system.to_system(type_.element, hints=hints)]

    made = {}

    def fill(names):
        for s in names:
            for i, a in enumerate(c[s]):
                Scalar.generate(artigraph=ts[a["art"]], system=ss[a["sys"]], priority=a["p"], type_system=made[s], name=f"{s}{i}")
            if s == "B1":
                made[s].register_adapter(Lists)
    made["B2"] = TypeSystem(key="B2")
    if not c["late"]:
        fill(["B2"])
    made["B1"] = TypeSystem(key="B1", extends=(made["B2"],) if c["shape"]["deep"] else ())
    if not c["late"]:
        fill(["B1"])
    made["S"] = TypeSystem(key="S", extends=tuple(made[b] for b in c["shape"]["ext"]))
    fill(["S", "B1", "B2"] if c["late"] else ["S"])

    def attempt(fn):
        try:
            return fn()
        except NotImplementedError:
            return None

    name = lambda d, v: next((k for k, x in d.items() if x is v), "refused" if v is None else repr(v))
    out = {}
    for r, t in made.items():
        elem = lambda v: None if v is None else type(v.element)
        arg = lambda v: None if v is None else v.__args__[0]
        typ = lambda v: None if v is None else type(v)
        out[r] = {"art": {n: name(ts, typ(attempt(lambda: t.to_artigraph(x, hints=hints)))) for n, x in ss.items()},
                  "sys": {n: name(ss, attempt(lambda: t.to_system(x(), hints=hints))) for n, x in ts.items()},
                  "lists": {n: name(ts, elem(attempt(lambda: t.to_artigraph(list[x], hints=hints)))) for n, x in ss.items()},
                  "syslists": {n: name(ss, arg(attempt(lambda: t.to_system(at.List(element=x()), hints=hints)))) for n, x in ts.items()}}
    if any(h != hints for h in seen):
        return "asked with other hints"
    return out


def allowed(want, got):
    return isinstance(got, dict) and all(got[r][k][n] in v for r, w in want.items() for k, d in w.items() for n, v in d.items())


# ---- dispatch ----
class A0: pass
class A(A0): pass
class A1(A): pass
class A2(A): pass
class A3(A1): pass
class AD(A1, A2): pass
class B0: pass
class B(B0): pass
class B1(B): pass
class B2(B1): pass
class R0: pass
class R(R0): pass
class R1(R): pass


CLS = {k.__name__: k for k in (A0, A, A1, A2, A3, AD, B0, B, B1, B2, R0, R, R1)} | {"any": Any, "none": None}


def attempt(fn):
    try:
        return fn()
    except NotImplementedError:
        return "base"
    except Exception as e:
        return type(e).__name__


def dispatch(c):
    from arti.internal.dispatch import multipledispatch

    def base(a: A, b: B) -> Any:
        raise NotImplementedError

    found = []
    d = multipledispatch("test", discovery_func=lambda: found.append(1))(base)
    out, made = [], {base: ["A", "B"]}

    def ask():
        res = []
        for f in ("A", "A1", "A2", "A3", "AD"):
            for s in ("B", "B1", "B2"):
                x, y = CLS[f](), CLS[s]()
                got = [attempt(lambda: d(x, y)), attempt(lambda: d(a=x, b=y)), attempt(lambda: d(b=y, a=x)), attempt(lambda: d(x, b=y))]
                try:
                    h = d.lookup(CLS[f], CLS[s])
                    got.append(made[h])
                except ValueError:
                    got.append("base")
                except TypeError as e:
                    got.append("DispatchError")
                res.append({"q": [f, s], "got": [["A", "B"] if g == "base" else g for g in got]})
        return res

    for f, s in c["impls"]:
        if len(made) % 2:
            impl = mk(f, s)
            d.register(impl)
        else:
            impl = mk(f, s, False)
            d.register(CLS[f], CLS[s])(impl)
        made[impl] = [f, s]
        if c["every"]:
            out.append(ask())
    for x in ((5, B()), (A(), "x"), (A0(), B())):
        if attempt(lambda: d(*x)) not in ("DispatchError", "TypeError"):
            return f"called with {x}"
    return out if c["every"] else [ask()]


def mk(f, s, hints=True):
    def impl(a, b):
        return [f, s]
    if hints:
        impl.__annotations__ = {"a": CLS[f], "b": CLS[s], "return": Any}
    return impl


def picked(want, got):
    """One of the closest, or an error if there are several."""
    if not isinstance(got, list) or len(got) != len(want):
        return False
    for w, g in zip(want, got):
        by = {tuple(x["q"]) if isinstance(x["q"], list) else x["q"]: x["any"] for x in w}
        for x in g:
            ok = by[tuple(x["q"]) if isinstance(x["q"], list) else x["q"]]
            if any(y not in ok and not (len(ok) > 1 and y in ("DispatchError", ["A", "B"], "SA")) for y in x["got"]):
                return False
    return True


SEQ = {"SA": Sequence[A], "SA1": Sequence[A1], "LA": list[A], "LA1": list[A1], "LA3": list[A3]}
ASK = {"LA": (list[A], lambda: [A(), A()]), "LA1": (list[A1], lambda: [A1()]), "LA3": (list[A3], lambda: [A3(), A3()]),
       "TA": (tuple[A, ...], lambda: (A(),)), "TA1": (tuple[A1, ...], lambda: (A1(),)), "TA3": (tuple[A3, ...], lambda: (A3(), A3()))}


def sequences(c):
    from arti.internal.dispatch import multipledispatch

    def base(x: Sequence[A]) -> Any:
        raise NotImplementedError

    d = multipledispatch("test")(base)
    made, out = {}, []

    def ask():
        res = []
        for q, (t, v) in ASK.items():
            got = [attempt(lambda: d(v())), attempt(lambda: d(x=v()))]
            if q.startswith("L"):
                try:
                    got.append(made[d.lookup(t)])
                except ValueError:
                    got.append("base")
            res.append({"q": q, "got": ["SA" if g == "base" else g for g in got]})
        return res

    for n in c["impls"]:
        impl = (lambda n: lambda x: n)(n)
        impl.__annotations__ = {"x": SEQ[n], "return": Any}
        d.register(impl)
        made[impl] = n
        if c["every"]:
            out.append(ask())
    return out if c["every"] else [ask()]


def implementations(c):
    from arti.internal.dispatch import multipledispatch

    def base(a: A, b: B) -> R:
        raise NotImplementedError

    d = multipledispatch("test")(base)

    @d.register
    def other(a: A2, b: B) -> R:
        return "other"

    # The signature as Python has it, from source
    parts, star = [], False
    ps = c["params"]
    for i, p in enumerate(ps):
        if p["kind"] == "keyword" and not star:
            parts.append("*")
            star = True
        parts.append(p["name"] + ("" if p["hint"] == "none" else f': {"Any" if p["hint"] == "any" else p["hint"]}'))
        if p["kind"] == "positional" and (i + 1 == len(ps) or ps[i + 1]["kind"] != "positional"):
            parts.append("/")
    ns = dict(CLS) | {"Any": Any}
    exec(f"def impl({', '.join(parts)}){'' if c['ret'] == 'none' else ' -> ' + c['ret']}:\n    return 'impl'", ns)
    pairs = [(x, y) for x in (A, A1, A2, A3, AD) for y in (B, B1)]
    ask = lambda: [attempt(lambda: d(x(), y())) for x, y in pairs]
    before = ask()
    try:
        d.register(ns["impl"])
    except TypeError:
        return {"res": "refused"} if ask() == before else "refused yet registered"
    fit = {p["name"]: A if p["hint"] == "any" and p["name"] == "a" else B if p["hint"] == "any" else CLS[p["hint"]] for p in c["params"]}
    return {"res": "ok", "used": attempt(lambda: d(fit["a"](), fit["b"]())) == "impl"}


def fits(want, got):
    return isinstance(got, dict) and want["res"] == got["res"] and (want["res"] == "refused" or got["used"] in want["used"])


def run(check):
    for which, fn, same, depth in (("registries", registries, None, (3, 4)), ("systems", systems, allowed, (3, 4)), ("dispatch", dispatch, picked, (3, 4)),
                                   ("sequences", sequences, picked, (4, 4)), ("implementations", implementations, fits, (3, 4))):
        items = tables.cases(check, "Registry", consts=f'Which = "{which}"\n Depth = {check.pick(*depth)}', workers=6, what=f"Registry: {which}")
        tables.compare(check, items, fn, what=which, same=same)
