"""C16: fingerprints and sized integers obey their 64-bit algebra (spec/Ints.tla)."""
import copy
import itertools
import math
import operator
import pickle

from arti import Fingerprint
from arti.internal.utils import int64, uint64

from vf import elsewhere, tables

KINDS = {"int": int, "s": int64, "u": uint64, "f": Fingerprint}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor,
       "<<": operator.lshift, ">>": operator.rshift}
UNARY = {"neg": operator.neg, "invert": operator.invert, "pos": operator.pos, "round": round, "round0": lambda x: round(x, 0), "floor": math.floor, "ceil": math.ceil,
         "trunc": math.trunc}
BASE, LIMBS = 4096, 12


def number(limbs):
    n = sum(d * BASE**i for i, d in enumerate(limbs))
    return n - BASE**LIMBS if n >= BASE**LIMBS // 2 else n


def told(f):
    try:
        r = f()
    except (ValueError, ZeroDivisionError, OverflowError):
        return "error"
    return [type(r).__name__, int(r)]


def expect(want):
    return "error" if "err" in want else [KINDS[want["kind"]].__name__, number(want["v"])]


def same(want, got):
    return expect(want) == got


def calculate(c):
    op = c["op"]
    if op == "combine":
        q = [Fingerprint.from_int(number(x)) for x in c["q"]]
        got = {str(told(lambda: Fingerprint.identity().combine(*p))) for p in itertools.permutations(q)}
        if q:
            got |= {str(told(lambda: p[0].combine(*p[1:]))) for p in itertools.permutations(q)}
            got |= {str(told(lambda: p[0].combine(Fingerprint.identity()).combine(*p[1:]))) for p in itertools.permutations(q)}
            got |= {str(told(lambda: p[0].combine(*p[1:], p[0], p[0]))) for p in itertools.permutations(q)}
        r = Fingerprint.identity().combine(*q)
        if len(got) != 1 or r.combine(*q) != Fingerprint.identity() or not r.combine(*q).is_identity or r.is_identity != (int(r) == 0):
            return ["inconsistent", sorted(got)]
        return told(lambda: r)
    a = number(c["a"])
    x = a if c["j"] == "int" else KINDS[c["j"]](a)
    if op == "make":
        got = told(lambda: KINDS[c["k"]](x))
        if c["k"] == "f":
            other = {"int": Fingerprint.from_int, "s": Fingerprint.from_int64, "u": Fingerprint.from_uint64, "f": Fingerprint.from_int64}[c["j"]]
            if told(lambda: other(x)) != got:
                return ["another constructor", told(lambda: other(x))]
        if got != "error":
            m = KINDS[c["k"]](x)
            for y in (pickle.loads(pickle.dumps(m)), copy.copy(m), copy.deepcopy(m), type(m)(m), eval(repr(m), {t.__name__: t for t in KINDS.values()})):
                if type(y) is not type(m) or y != m or hash(y) != hash(int(m)) or int(y) != got[1] or str(y) != str(got[1]):
                    return ["a copy", repr(y)]
        return got
    if op in UNARY:
        return told(lambda: UNARY[op](x))
    b = number(c["b"])
    y = b if c["k"] == "int" else KINDS[c["k"]](b)
    got = told(lambda: OPS[op](x, y))
    if [int(x), int(y)] != [a, b]:
        return ["operands changed"]
    if (x == y) != (a == b) or (x < y) != (a < b) or (x >= y) != (a >= b) or (a == b and hash(x) != hash(y)):
        return ["comparison"]
    return got


TEXTS = ["", "a", "b", "A", " ", "a ", "é", "e\u0301", "日本", "a\nb", "a\r\nb", "x" * 100, "x" * 101, "x" * 5000, "😀", "{}", "[]", "null", "0", "1", "01"]


def text(s):
    got = {int(Fingerprint.from_string("".join(list(s)))), int(Fingerprint.from_string(s)), int(Fingerprint.from_string(s.encode().decode())), int(Fingerprint.from_string(type("T", (str,), {})(s)))}
    return str(got.pop()) if len(got) == 1 else sorted(map(str, got))


def run(check):
    small = "Base = 4 Limbs = {} Width = {} Which = 0"
    for width, limbs in check.pick([(4, 8)], [(4, 8), (5, 10), (6, 12)]):
        tables.cases(check, "Ints", inv="SmallLaws", init="SmallInit", emit="", consts=small.format(limbs, width), what=f"Ints: definitions at width {width}")
    big = f"Base = {BASE} Limbs = {LIMBS} Width = 64 Which = 0"
    for init, what in (("BinaryInit", "binary"), ("UnaryInit", "unary"), ("MakeInit", "conversions"), ("CombineInit", "combinations")):
        items = tables.cases(check, "Ints", inv="Laws", init=init, consts=big, what=f"Ints: {what}", workers=8)
        tables.compare(check, items, calculate, what=what, same=same,
                       name=lambda c: f"{c['op']} {c.get('j')} {number(c['a']) if 'a' in c else ''} {c.get('k')} {number(c['b']) if 'b' in c else ''}")
    here = [text(s) for s in TEXTS]
    if len(set(map(str, here))) != len(TEXTS) or any(isinstance(h, list) for h in here):
        check.violation("fingerprints of strings", {"fingerprints": dict(zip(TEXTS, here))})
    elsewhere.compare(check, "vf.checks.c16", "text", TEXTS, here, what="strings")
