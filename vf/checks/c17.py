"""C17: definitions of producers are refused or accepted when they are made (spec/Producers.tla)."""
import functools
import json
import sys
import types as pytypes
from collections.abc import Sequence
from typing import Annotated, Any, ClassVar

from vf import tables
from vf.core import Scratch
from vf.replay import key

REFUSED = {"res": "refused"}
PARTS = {"APart", "APart2", "APart3", "APart4", "SubAPart"}
NAT = {"AInt": "int", "BInt": "int", "Plain": "int", "APart": "list[dict]", "ANull": "None"}
TYPES = {"AInt": "Int64()", "BInt": "Int64()", "Plain": "Int64()", "APart": "COLL"}
OUTS = {"int": "int", "str": "str", "AInt": "Annotated[int, AInt]", "null": "Annotated[None, ANull]", "part": "Annotated[list[dict], APart]", "part2": "Annotated[list[dict], APart2]",
        "part3": "Annotated[list[dict], APart3]", "part4": "Annotated[list[dict], APart4]", "badA": "Annotated[str, AInt]", "unview": "bytes", "classonly": "AInt",
        "badtype": "Annotated[int, AInt, Boolean()]", "twoviews": "Annotated[int, Int, Str]"}
RESULT = {"int": 5, "str": "s", "AInt": 6, "null": None, "part": [{"k": 1, "v": 2}], "part2": [{"k": 1, "v": 2, "w": 3}], "part3": [{"k": 1, "v": 2}], "part4": [{"j": 1, "v": 2}]}


@functools.cache
def scope():
    from arti import Annotation, Artifact, Graph, PartitionDependencies, Producer, StoragePartitions, Type, View, producer
    from arti.formats.json import JSON
    from arti.internal.mappings import frozendict
    from arti.partitions import Int32Field, Int64Field, NotPartitioned
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile
    from arti.types import Boolean, Collection, Int32, Int64, List, Null, String, Struct, TypeAdapter, TypeSystem
    from arti.versions import SemVer, Version
    from arti.views.python import Int, Str

    def coll(by, **fields):
        return Collection(element=Struct(fields=fields), partition_by=(by,))

    COLL = coll("k", k=Int64(), v=Int64())

    def art(name, t):
        return type(name, (Artifact,), {"__annotations__": {"type": Type}, "__module__": __name__, "type": t})

    class Plain(Artifact): pass
    class SubPlain(Plain): pass
    AInt, BInt, ANull, APart = art("AInt", Int64()), art("BInt", Int64()), art("ANull", Null()), art("APart", COLL)
    APart2, APart3, APart4 = art("APart2", coll("k", k=Int64(), v=Int64(), w=Int64())), art("APart3", coll("k", k=Int32(), v=Int64())), art("APart4", coll("j", j=Int64(), v=Int64()))
    class SubAInt(AInt): pass
    class SubBInt(BInt): pass
    class SubAPart(APart): pass

    class Nothing: pass
    ts = TypeSystem(key="nothing")
    ts.register_adapter(type("A", (TypeAdapter,), {"artigraph": Null, "to_system": classmethod(lambda cls, t, *, hints, type_system: Nothing)}))

    class BadView(View):
        """A View of nothing these tests hold."""
        priority = -1
        python_type, type_system = Nothing, ts

    class Note(Annotation):
        text: str = "x"

    return {k: v for k, v in locals().items() if k not in ("art", "ts")} | {"Annotated": Annotated, "Any": Any, "ClassVar": ClassVar, "Sequence": Sequence}


def field(kind, name):
    return {"absent": None, "optional": f"{name}: AInt | None", "default": f"{name}: AInt = AInt()", "not an artifact": f"{name}: int", "classvar": f"{name}: ClassVar[int] = 5",
            "union": f"{name}: AInt | BInt", "annotated": f"{name}: Annotated[AInt, 'what it is']"}.get(kind, f"{name}: {kind}")


def params(ps):
    """The text of a parameter list, from {name: (kind, hint)}."""
    pos = [f"{n}: {h}" if h else n for n, (k, h) in ps.items() if k == "posonly"]
    both = [f"{n}: {h}" if h else n for n, (k, h) in ps.items() if k in ("ok", "nohint")]
    dflt = [f"{n}: {h} = 1" for n, (k, h) in ps.items() if k == "default"]
    var = [f"*{n}: {h}" for n, (k, h) in ps.items() if k == "var"]
    kw = [f"{n}: {h}" if k == "kwonly" else f"{n}: {h} = 1" for n, (k, h) in ps.items() if k in ("kwonly", "kwdefault")]
    varkw = [f"**{n}: {h}" for n, (k, h) in ps.items() if k == "varkw"]
    return ", ".join([*pos, *(["/"] if pos else []), *both, *dflt, *var, *(["*"] if kw and not var else []), *kw, *varkw])


def hint(p, k, decorator):
    """The hint of a parameter p for a field of kind k."""
    nat = NAT.get(k, "int")
    cls = k if k in NAT else "AInt"
    other = "BInt" if cls != "BInt" else "AInt"
    extra = f", {cls}" if decorator else ""
    match p:
        case "badhint":
            return f"Annotated[str{extra}]" if extra else "str"
        case "class":
            return f"Annotated[{nat}, {cls}]"
        case "otherclass":
            return f"Annotated[{nat}, {other}]"
        case "subclass":
            return f"Annotated[{nat}, Sub{cls}]"
        case "superclass":
            return f"Annotated[{nat}, {TYPES[cls]}, Artifact]"
        case "type":
            return f"Annotated[{nat}, {TYPES[cls]}{extra}]"
        case "badtype":
            return f"Annotated[{nat}, {'String()' if cls == 'Plain' else 'Boolean()'}{extra}]"
        case "badview":
            return f"Annotated[{nat}, BadView{extra}]"
        case "twoclasses":
            return f"Annotated[{nat}, {cls}, {other}]"
        case "artifact":
            return cls
        case "nohint":
            return None
    return f"Annotated[{nat}{extra}]" if extra else nat


def method(kind, name, ps, ret, body):
    deco = {"static": ["@staticmethod"], "class": ["@classmethod"], "instance": []}[kind]
    first = {"static": "", "class": "cls, ", "instance": "self, "}[kind]
    return [*deco, f"def {name}({first}{params(ps)}){' -> ' + ret if ret else ''}:", f"    {body}"]


def plain(h):
    return h.removeprefix("Annotated[").split(", ")[0] if h.startswith("Annotated") else h


def validator(c):
    hs = [plain(OUTS[o]) if o in OUTS else o for o in c["ret"]]
    if c["ret"] == ["None"]:
        hs = ["None"]
    if c["ret"] == ["missing"]:
        hs = ["int"]
    names = ["a", "b", "c"][:len(hs)]
    each = [f"{n}: {h}" for n, h in zip(names, hs)]
    last = names[-1]
    text = {"exact": each, "class exact": ["cls", *each], "nohint": names, "any args": ["*args: Any"], "args": ["*args"], "args of first": [f"*args: {hs[0]}"],
            "wide": [f"{n}: {'list' if h.startswith('list') else 'Any' if i % 2 else h + ' | bytes'}" for i, (n, h) in enumerate(zip(names, hs))],
            "bad": [f"a: complex", *each[1:]], "bad last": [*each[:-1], f"{last}: complex"], "few": each[:-1], "many": [*each, "z: int"], "default": [*each[:-1], each[-1] + " = None"],
            "kwonly": ["*", *each] if len(each) == 1 else [*each[:-1], "*", each[-1]], "posonly": [*each, "/"], "kwargs": ["**kwargs: Any"],
            "swapped": [f"{n}: {h}" for n, h in zip(names, hs[::-1])]}[c["val"]]
    deco = ["@classmethod"] if c["val"] == "class exact" else ["@staticmethod"]
    return [*deco, f"def validate_outputs({', '.join(text)}) -> tuple[bool, str]:", "    return True, ''"]


def source(c):
    """The definition, as one would write it. The producer is called P."""
    deco, out = c["form"] == "decorator", []
    kind = lambda f: "AInt" if c["form"] == "child" and f == "x" and c["x"] == "absent" else "AInt" if c[f] == "annotated" else c[f]
    bp = {f: (c["b" + f] if c["b" + f] in ("posonly", "var", "varkw", "default", "kwdefault", "kwonly", "nohint") else "ok", hint(c["b" + f], kind(f), deco)) for f in ("x", "y") if c["b" + f] != "absent"}
    if c["bz"] == "ok":
        bp["z"] = ("ok", "int")
    mp = {f: (c["m" + f] if c["m" + f] in ("posonly", "var", "default", "kwonly", "nohint") else "ok", {"nohint": None, "badhint": "Sequence[int]"}.get(c["m" + f], "StoragePartitions")) for f in ("x", "y") if c["m" + f] != "absent"}
    if c["mz"] == "ok":
        mp["z"] = ("ok", "StoragePartitions")
    outs = [OUTS.get(o) for o in c["ret"]]
    ret = None if c["ret"] == ["missing"] else "None" if c["ret"] == ["None"] else outs[0] if len(outs) == 1 else f"tuple[{', '.join(outs)}]"
    build = method(c["bk"], "build", bp, ret, f"return record({', '.join(f'{n}={n}' for n in bp)})") if c["bk"] != "missing" else []
    map_ = method(c["mk"], "map", mp, "PartitionDependencies", f"return dependencies({', '.join(f'{n}={n}' for n in mp)})") if c["mk"] != "missing" else []
    val = validator(c) if c["val"] != "none" else []
    ver, ann = c["opt"] in ("version", "both"), c["opt"] in ("annotations", "both")
    if deco:
        args = [*(["map=map"] if map_ else []), *(["validate_outputs=validate_outputs"] if val else []), *(["version=SemVer(major=9, minor=8, patch=7)"] if ver else []), *(["annotations=(Note(),)"] if ann else [])]
        strip = lambda lines: [l for l in lines if not l.startswith("@")]
        out = [*strip(map_), *strip(val), f"decorate = producer({', '.join(args)})"]
        if c["opt"] == "again":
            out += ["def Q(x: Annotated[str, Plain]) -> str:", "    return x", "try:", "    decorate(Q)", "except ValueError:", "    pass"]
        return "\n".join([*out, *[l.replace("def build(", "def P(") for l in strip(build)], "P = decorate(P)"])
    body = [f for f in (field(c["x"], "x"), field(c["y"], "y")) if f]
    body += ["version: Version = SemVer(major=9, minor=8, patch=7)"] if ver else []
    body += ["annotations: tuple[Annotation, ...] = (Note(),)"] if ann else []
    body += [*build, *map_, *val]
    if c["form"] == "child":
        out = ["class Parent(Producer):", "    x: AInt", "    @staticmethod", "    def build(x: int) -> Annotated[int, AInt]:", "        return x"]
        return "\n".join([*out, "class P(Parent):", *["    " + l for l in body or ["pass"]]])
    if c["form"] == "abstract parent":
        return "\n".join(["class Parent(Producer):", "    _abstract_ = True", *["    " + l for l in body or ["pass"]], "class P(Parent):", "    pass"])
    return "\n".join(["class P(Producer):", *["    " + l for l in body or ["pass"]]])


def define(c):
    S = dict(scope())
    S["__name__"] = "vf_defined"
    exec(source(c), S)
    return S["P"], S


def observe(c):
    src = source(c)
    S = dict(scope())
    S["__name__"] = "vf_defined"
    log = []
    S["record"] = lambda **kw: (log.append(kw), (vals[0] if len(vals) == 1 else tuple(vals)))[1]
    vals = [RESULT.get(o) for o in c["ret"]]
    code = compile(src, "<definition>", "exec")
    try:
        exec(code, S)
    except (ValueError, TypeError, NotImplementedError) as e:
        return REFUSED if isinstance(e, NotImplementedError) or "P" in str(e).split(" ")[0] else {"res": "refused", "without saying what": str(e)}
    P = S["P"]
    if P.__name__ != "P" or P._arti_type_key_ != "P":
        return f"named {P._arti_type_key_}"
    # What it declares
    classes = {f: P.model_fields[f].annotation for f in P.model_fields if f not in S["Producer"].model_fields}
    if not all(isinstance(k, type) and issubclass(k, S["Artifact"]) for k in classes.values()):
        return {"declares": repr(classes)}
    # Use it
    with Scratch() as d:
        given, values = {}, {}
        for f, k in classes.items():
            if k is S["APart"]:
                for i in (1, 2):
                    (d / f"{f}{i}.json").write_text(json.dumps([{"k": i, "v": i + 1}]))
                values[f] = [{"k": 1, "v": 2}, {"k": 2, "v": 3}]
                given[f] = k(format=S["JSON"](), storage=S["LocalFile"](path=f"{d}/{f}{{k.value}}.json"))
            else:
                view = P._build_inputs_.get(f)
                t = view.type if k is S["Plain"] and view else S["Int64"]()
                values[f] = "v" + f if t == S["String"]() else 3 + len(given)
                given[f] = k(type=t, format=S["JSON"](), storage=S["StringLiteral"](value=json.dumps(values[f])))
        p = P(**given)
        ins = {f: type(a).__name__ for f, a in p.inputs.items()}
        if p.inputs != given:
            return f"inputs {p.inputs}"
        outs = p.out() if len(c["ret"]) > 1 else (p.out(),)
        got = {"res": "ok", "inputs": sorted(ins.items()), "outs": [[type(o).__name__, type(o.type).__name__] for o in outs],
               "version": p.version == S["SemVer"](major=9, minor=8, patch=7), "annotations": p.annotations == (S["Note"](),)}
        if not got["version"] and p.version != S["SemVer"](major=0, minor=0, patch=1) or not got["annotations"] and p.annotations != ():
            return f"version {p.version} annotations {p.annotations}"
        # Nothing is left to build time
        read = set(P._build_inputs_)
        part = [o for o in c["ret"] if o.startswith("part")]
        pk = {} if not part else {"k": S["Int32Field"](value=1)} if part[0] == "part3" else {"j" if part[0] == "part4" else "k": S["Int64Field"](value=1)}
        S["dependencies"] = lambda **kw: S["frozendict"]({S["frozendict"](pk): S["frozendict"](
            {k: kw[k] if k in kw else g.artifacts[k].storage.discover_partitions() for k in read})}) if set(kw) == set(P._map_inputs_) else 1 / 0
        with S["Graph"](name="g") as g:
            for f, a in given.items():
                g.artifacts[f] = a
            os_ = P(**{f: g.artifacts[f] for f in given}).out(*[type(o)(type=o.type, format=S["JSON"](), storage=S["LocalFile"](path=f"{d}/out{i}{'{' + next(iter(pk)) + '.value}' if pk else ''}-{{input_fingerprint}}.json")) for i, o in enumerate(outs)])
            for i, o in enumerate(os_ if len(outs) > 1 else (os_,)):
                g.artifacts[f"o{i}"] = o
        snap = g.build()
        log = [{f: sorted(v, key=lambda r: r["k"]) if isinstance(v, list) else v for f, v in l.items()} for l in log]
        if log != [{f: values[f] for f in read}]:
            return {"built with": log, "not": [{f: values[f] for f in read}]}
        for i, v in enumerate(vals):
            r = snap.read(g.artifacts[f"o{i}"], annotation=list[dict] if part else type(v))
            if r != v:
                return {"read": r, "not": v}
    return got


def run(check):
    scope()
    items = tables.cases(check, "Producers", consts=f"Changes = {check.pick(2, 3)}", workers=6, heap="12g", extra="VIEW d" if False else "")
    seen, some = set(), []
    for x in items:
        if (k := key(x["c"])) not in seen:
            seen.add(k)
            some.append(x)
    check.count("well-formed", sum(x["want"]["res"] == "ok" for x in some))
    norm = lambda w: w if w == REFUSED or not isinstance(w, dict) or "inputs" not in w else {**w, "inputs": sorted(map(list, w["inputs"]))}
    tables.compare(check, some, observe, what="definitions", same=lambda w, g: key(norm(w)) == key(norm(g)))
