"""C29: subtype checks on type hints agree with the values they denote (spec/Hints.tla)."""
import collections.abc as abc
import typing
from datetime import date, datetime
from typing import Annotated, Any, Literal, Optional, TypedDict, TypeVar, Union

from arti.internal.type_hints import discard_Annotated, get_item_from_annotated, is_optional_hint, is_union_hint, lenient_issubclass

from vf import tables, tlc
from vf.replay import key, parallel


class A:
    pass


class B(A):
    pass


class C(B):
    pass


class MyTuple(tuple):
    pass


CLASSES = {"int": int, "bool": bool, "str": str, "float": float, "bytes": bytes, "NoneType": type(None), "date": date, "datetime": datetime, "A": A, "B": B, "C": C,
           "object": object, "type": type, "list": list, "tuple": tuple, "MyTuple": MyTuple, "dict": dict, "set": set, "frozenset": frozenset,
           "Sequence": abc.Sequence, "Mapping": abc.Mapping, "Iterable": abc.Iterable}
TYPING = {"list": typing.List, "set": typing.Set, "dict": typing.Dict, "Sequence": typing.Sequence, "Mapping": typing.Mapping, "Iterable": typing.Iterable}
VARS: dict = {}
TDS: dict = {}


def value(v):
    return {"int": int, "bool": lambda x: bool(int(x)), "str": str}[v["c"]](v["at"])


def hint(t, style="new"):
    """The hint, as it is written today or with typing's names."""
    h = t["h"]
    if h == "class":
        return CLASSES[t["c"]]
    if h == "any":
        return Any
    if h == "of":
        return (TYPING if style == "old" else CLASSES)[t["c"]][tuple(hint(a, style) for a in t["args"])]
    if h in ("tuple", "tuples"):
        args = tuple(hint(a, style) for a in t["args"]) if h == "tuple" else (hint(t["e"], style), ...)
        return (typing.Tuple if style == "old" else tuple)[args]
    if h == "union":
        hs = [hint(a, style) for a in (t["hs"] if style == "new" else t["hs"][::-1])]
        if style == "old":
            rest = [a for a in hs if a is not type(None)]
            return Union[tuple(hs)] if len(rest) == len(hs) else Optional[Union[tuple(rest)]]
        out = hs[0]
        for a in hs[1:]:
            out = out | a
        return out
    if h == "literal":
        vs = [value(v) for v in (t["vs"] if style == "new" else t["vs"][::-1])]
        return Literal[tuple(vs)]
    if h == "annotated":
        return Annotated[hint(t["e"], style), "note", A]
    k = key(t)
    if h == "var":
        if k not in VARS:
            VARS[k] = TypeVar("T") if t["b"]["h"] == "any" else TypeVar("T", bound=hint(t["b"]))
        return VARS[k]
    if style == "old" and k in TDS:
        return TDS[k]
    td = TypedDict(t["n"], {n: hint(f, style) for n, f in t["fs"].items()})
    return TDS.setdefault(k, td)


def sub(s, t):
    try:
        got = lenient_issubclass(s, t)
    except Exception as e:
        return f"raised {e!r}"
    return got if isinstance(got, bool) else f"not a truth value: {got!r}"


def items(c):
    has = {"a": A(), "b": B(), "other": object(), "A": A, "B": B, "Other": dict, "listA": list[A], "five": 5}
    if not c["m"]:
        return "none" if get_item_from_annotated(int, CLASSES[c["w"]], kind=c["k"]) is None else "?"
    try:
        got = get_item_from_annotated(Annotated[(int, *(has[m] for m in c["m"]))], CLASSES[c["w"]], kind=c["k"], default="none")
    except ValueError:
        return "error"
    return got if got == "none" else next(n for n, x in has.items() if x is got)


def run(check):
    r = tlc.run("Hints", workers=8, heap="8g", cfg_text=f"INIT Init\nNEXT Next\nCONSTANTS Deeper = {check.pick('FALSE', 'TRUE')}\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    check.spec(r, what="Hints: subtypes")
    rows = r.get("C")
    at = {x["n"]: x["hint"] for x in rows}
    new = {n: hint(t) for n, t in at.items()}
    old = {n: hint(t, "old") for n, t in at.items()}

    def row(x):
        must, mustnot = set(x["must"]), set(x["mustnot"])
        n = x["n"]
        for s, left in ((new, "new"), (old, "old")):
            for t in (new, old):
                for m in at:
                    got = sub(s[n], t[m])
                    # (typing's spelling of containers is only understood on the right)
                    if not isinstance(got, bool) or (got and m in mustnot) or (not got and m in must and left == "new"):
                        return f"{s[n]} as {t[m]}: {got}", {"hint": at[n], "of": at[m], "spelled": [repr(s[n]), repr(t[m])], "got": got,
                                                            "expected": m in must if m in must or m in mustnot else "a truth value"}
            if is_optional_hint(s[n]) != x["optional"] or is_union_hint(s[n]) != x["union"] or hint(x["base"]) != discard_Annotated(new[n]):
                return f"kind of {s[n]}", {"hint": at[n]}
        for group in (tuple(list(x["must"])[:3]), tuple(list(x["mustnot"])[:3])):
            if group:
                got = sub(new[n], tuple(new[m] for m in group))
                if got is not (group[0] in must):
                    return f"{new[n]} as one of {[new[m] for m in group]}: {got}", {"hint": at[n], "of": [at[m] for m in group]}
        return None

    check.traces += parallel(check, row, rows)
    small = {n: t for n, t in at.items() if len(key(t)) < check.pick(10**9, 170)}
    up = {n: {m for m in small if sub(new[n], new[m]) is True} for n in small}
    for n in small:
        for m in up[n]:
            for x in up[m] - up[n]:
                check.violation(f"{new[n]} <= {new[m]} <= {new[x]} but not transitively", {"hints": [at[n], at[m], at[x]]})
    check.count("transitive_over", len(small))
    check.count("hints", len(rows))
    check.count("pairs", 4 * len(rows) ** 2)
    check.sample({"hint": at[1]})
    tables.compare(check, tables.cases(check, "Hints", inv="ItemEmit", init="ItemInit", nxt="ItemNext", emit="", consts="Deeper = FALSE", what="Hints: extras"), items, what="extras")
