-------------------------------- MODULE Types --------------------------------
(* Artigraph types, the type systems they are converted to and from, and what  *)
(* each of these systems can hold.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS System,        \* "python", "pydantic", "pyarrow", "bigquery", "numpy", "pandas"
          Deeper
Err == [err |-> TRUE]
Bad(x) == "err" \in DOMAIN x
AnyBad(s) == \E i \in DOMAIN s : Bad(s[i])
Rng(s) == {s[i] : i \in DOMAIN s}
Map1(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
Precisions == {"second", "millisecond", "microsecond", "nanosecond"}

(* ---- artigraph types: [k: kind, null, d: description ("" is none), ...] ---- *)
T0(k) == [k |-> k, null |-> FALSE, d |-> ""]
Bin(n) == [k |-> "binary", null |-> FALSE, d |-> "", size |-> n]              \* -1: any size
Timed(k, p) == [k |-> k, null |-> FALSE, d |-> "", p |-> p]
Geo(f) == [k |-> "geography", null |-> FALSE, d |-> "", format |-> f]
EnumOf(n, t, items) == [k |-> "enum", null |-> FALSE, d |-> "", name |-> n, type |-> t, items |-> items]
ListOf(e) == [k |-> "list", null |-> FALSE, d |-> "", e |-> e]
SetOf(e) == [k |-> "set", null |-> FALSE, d |-> "", e |-> e]
MapOf(a, b) == [k |-> "map", null |-> FALSE, d |-> "", mk |-> a, mv |-> b]
F(n, t) == [n |-> n, t |-> t]
StructOf(n, fs) == [k |-> "struct", null |-> FALSE, d |-> "", name |-> n, fs |-> fs]
CollOf(n, e, pb, cb) == [k |-> "collection", null |-> FALSE, d |-> "", name |-> n, e |-> e, pb |-> pb, cb |-> cb]
N(t) == [t EXCEPT !.null = TRUE]
NotN(t) == [t EXCEPT !.null = FALSE]
Says(t, d) == [t EXCEPT !.d = d]
Named(k) == k \in {"enum", "struct", "collection"}
Ints == {"int8", "int16", "int32", "int64"}
UInts == {"uint8", "uint16", "uint32", "uint64"}
Floats == {"float16", "float32", "float64"}
Anon == "anon"
FieldT(fs, n) == LET i == CHOOSE i \in DOMAIN fs : fs[i].n = n IN fs[i].t
Unique(fs) == \A i, j \in DOMAIN fs : fs[i].n = fs[j].n => i = j

(* ---- Python hints: [g, ...] ---- *)
Cls(c) == [g |-> "class", c |-> c]
NoneH == [g |-> "none"]
Of(c, a) == [g |-> "of", c |-> c, a |-> a]                 \* list[a], tuple[a, ...], set[a], frozenset[a]
MapH(c, a, b) == [g |-> "map", c |-> c, a |-> a, b |-> b]  \* dict[a, b], Mapping[a, b]
Opt(h) == [g |-> "opt", h |-> h]
Lit(vs) == [g |-> "lit", vs |-> vs]                        \* values "s:a", "i:1", ... in order of their names
LitU(vs, ws) == [g |-> "litu", vs |-> vs, ws |-> ws]       \* Union[Literal[vs], Literal[ws]]
TD(n, fs) == [g |-> "td", n |-> n, fs |-> fs]
TDPart(n, fs) == [g |-> "tdpart", n |-> n, fs |-> fs]      \* total=False
Model(n, fs) == [g |-> "model", n |-> n, fs |-> fs]
Odd(c) == [g |-> "odd", c |-> c]                           \* anything else
LitKind(v) == CASE v \in {"s:a", "s:b", "s:c"} -> "string" [] v \in {"i:1", "i:2", "i:3"} -> "int64" [] v \in {"b:0", "b:1"} -> "boolean" [] v = "y:x" -> "binary" [] OTHER -> "other"
ScalarT(k) == CASE k = "binary" -> Bin(-1) [] k = "timestamp" -> Timed("timestamp", "microsecond") [] OTHER -> T0(k)
Lits == <<"b:0", "b:1", "i:1", "i:2", "i:3", "s:a", "s:b", "s:c", "y:x">>
InOrder(S) == SelectSeq(Lits, LAMBDA v : v \in S)
PyEnum(S) == IF \A v, w \in S : LitKind(v) = LitKind(w) THEN EnumOf(Anon, ScalarT(LitKind(CHOOSE v \in S : TRUE)), InOrder(S)) ELSE Err
InField(n, t) == IF System = "pydantic" /\ Named(t.k) THEN [t EXCEPT !.name = n] ELSE t
RECURSIVE FromPy(_)
FromPy(h) ==
  CASE h.g = "class" -> (CASE h.c = "int" -> T0("int64") [] h.c = "bool" -> T0("boolean") [] h.c = "str" -> T0("string") [] h.c = "float" -> T0("float64")
                           [] h.c = "bytes" -> Bin(-1) [] h.c = "date" -> T0("date") [] h.c = "datetime" -> Timed("timestamp", "microsecond") [] OTHER -> Err)
    [] h.g = "none" -> T0("null")
    [] h.g = "of" -> LET e == FromPy(h.a) IN IF Bad(e) THEN Err ELSE IF h.c \in {"list", "tuple"} THEN ListOf(e) ELSE SetOf(e)
    [] h.g = "map" -> LET a == FromPy(h.a) b == FromPy(h.b) IN IF Bad(a) \/ Bad(b) THEN Err ELSE MapOf(a, b)
    [] h.g = "opt" -> LET e == FromPy(h.h) IN IF Bad(e) THEN Err ELSE N(e)
    [] h.g = "lit" -> PyEnum(Rng(h.vs))
    [] h.g = "litu" -> PyEnum(Rng(h.vs) \cup Rng(h.ws))
    [] h.g = "td" -> LET fs == Map1(LAMBDA f : FromPy(f.t), h.fs) IN IF AnyBad(fs) THEN Err ELSE StructOf(h.n, [i \in DOMAIN h.fs |-> F(h.fs[i].n, fs[i])])
    [] h.g = "model" -> LET fs == Map1(LAMBDA f : FromPy(f.t), h.fs)
                        IN IF System # "pydantic" \/ AnyBad(fs) THEN Err ELSE StructOf(h.n, [i \in DOMAIN h.fs |-> F(h.fs[i].n, InField(h.fs[i].n, fs[i]))])
    [] OTHER -> Err                                        \* (fields that may be missing cannot be told)
RECURSIVE ToPy(_)
ToPy(t) ==
  IF t.null THEN LET h == ToPy(NotN(t)) IN IF Bad(h) \/ h.g = "none" THEN h ELSE Opt(h)
  ELSE CASE t.k \in Ints -> Cls("int") [] t.k \in Floats -> Cls("float") [] t.k = "boolean" -> Cls("bool") [] t.k = "string" -> Cls("str") [] t.k = "binary" -> Cls("bytes")
         [] t.k = "date" -> Cls("date") [] t.k = "timestamp" -> Cls("datetime") [] t.k = "null" -> NoneH
         [] t.k = "enum" -> Lit(t.items)
         [] t.k \in {"list", "collection"} -> LET h == ToPy(t.e) IN IF Bad(h) THEN Err ELSE Of("list", h)
         [] t.k = "set" -> LET h == ToPy(t.e) IN IF Bad(h) THEN Err ELSE Of("set", h)
         [] t.k = "map" -> LET a == ToPy(t.mk) b == ToPy(t.mv) IN IF Bad(a) \/ Bad(b) THEN Err ELSE MapH("dict", a, b)
         [] t.k = "struct" -> LET fs == Map1(LAMBDA f : ToPy(f.t), t.fs)
                              IN IF AnyBad(fs) THEN Err ELSE LET gs == [i \in DOMAIN fs |-> F(t.fs[i].n, fs[i])] IN IF System = "pydantic" THEN Model(t.name, gs) ELSE TD(t.name, gs)
         [] OTHER -> Err
\* What hints say about a type
RECURSIVE PyKeeps(_)
PyKeeps(t) ==
  LET n == t.null /\ t.k # "null" IN
  CASE t.k \in Ints -> [T0("int64") EXCEPT !.null = n] [] t.k \in Floats -> [T0("float64") EXCEPT !.null = n]
    [] t.k = "binary" -> [Bin(-1) EXCEPT !.null = n] [] t.k = "timestamp" -> [Timed("timestamp", "microsecond") EXCEPT !.null = n]
    [] t.k = "enum" -> [EnumOf(Anon, NotN(PyKeeps(t.type)), t.items) EXCEPT !.null = n]
    [] t.k \in {"list", "collection"} -> [ListOf(PyKeeps(t.e)) EXCEPT !.null = n]
    [] t.k = "set" -> [SetOf(PyKeeps(t.e)) EXCEPT !.null = n]
    [] t.k = "map" -> [MapOf(PyKeeps(t.mk), PyKeeps(t.mv)) EXCEPT !.null = n]
    [] t.k = "struct" -> [StructOf(t.name, [i \in DOMAIN t.fs |-> F(t.fs[i].n, InField(t.fs[i].n, PyKeeps(t.fs[i].t)))]) EXCEPT !.null = n]
    [] OTHER -> [T0(t.k) EXCEPT !.null = n]
\* The hint written with list, set, dict, and one literal
RECURSIVE PyPlain(_)
PyPlain(h) ==
  CASE h.g = "of" -> Of(IF h.c \in {"list", "tuple"} THEN "list" ELSE "set", PyPlain(h.a))
    [] h.g = "map" -> MapH("dict", PyPlain(h.a), PyPlain(h.b))
    [] h.g = "opt" -> IF h.h.g \in {"none", "opt"} THEN PyPlain(h.h) ELSE Opt(PyPlain(h.h))
    [] h.g = "litu" -> Lit(InOrder(Rng(h.vs) \cup Rng(h.ws)))
    [] h.g = "lit" -> Lit(InOrder(Rng(h.vs)))
    [] h.g \in {"td", "model"} -> LET fs == [i \in DOMAIN h.fs |-> F(h.fs[i].n, LET g == PyPlain(h.fs[i].t) IN
                                          \* (a model in a model's field is known by the field's name)
                                          IF System = "pydantic" /\ h.g = "model" /\ g.g = "model" THEN [g EXCEPT !.n = h.fs[i].n]
                                          ELSE IF System = "pydantic" /\ h.g = "model" /\ g.g = "opt" /\ g.h.g = "model" THEN Opt([g.h EXCEPT !.n = h.fs[i].n]) ELSE g)]
                                  IN IF System = "pydantic" THEN Model(h.n, fs) ELSE TD(h.n, fs)
    [] OTHER -> h

(* ---- Arrow types: [a, ...]; fields [n, t, null] ---- *)
A0(a) == [a |-> a]
AU(a, u) == [a |-> a, unit |-> u]
ATs(u, tz) == [a |-> "timestamp", unit |-> u, tz |-> tz]
AF(n, t, null) == [n |-> n, t |-> t, null |-> null]
Units == <<"s", "ms", "us", "ns">>
PrecisionSeq == <<"second", "millisecond", "microsecond", "nanosecond">>
UnitOf(p) == Units[CHOOSE i \in 1..4 : PrecisionSeq[i] = p]
PrecOf(u) == PrecisionSeq[CHOOSE i \in 1..4 : Units[i] = u]
NoMeta == [none |-> TRUE]
RECURSIVE ToArrow(_)
ToArrow(t) ==
  CASE t.k \in Ints \cup UInts \cup Floats \cup {"string", "null"} -> A0(t.k)
    [] t.k = "boolean" -> A0("bool") [] t.k = "date" -> A0("date64")
    [] t.k = "binary" -> IF t.size = -1 THEN A0("binary") ELSE [a |-> "fixed", size |-> t.size]
    [] t.k = "geography" -> A0(IF t.format = "WKB" THEN "binary" ELSE "string")
    [] t.k = "datetime" -> ATs(UnitOf(t.p), "") [] t.k = "timestamp" -> ATs(UnitOf(t.p), "UTC")
    [] t.k = "time" -> AU(IF t.p \in {"second", "millisecond"} THEN "time32" ELSE "time64", UnitOf(t.p))
    [] t.k = "list" -> LET e == ToArrow(t.e) IN IF Bad(e) \/ e.a = "schema" THEN Err ELSE [a |-> "list", e |-> e]
    [] t.k = "map" -> LET a == ToArrow(t.mk) b == ToArrow(t.mv) IN IF Bad(a) \/ Bad(b) \/ "schema" \in {a.a, b.a} THEN Err ELSE [a |-> "map", mk |-> a, mv |-> b]
    [] t.k \in {"struct", "collection"} ->
         LET s == IF t.k = "struct" THEN t ELSE t.e
             fs == Map1(LAMBDA f : ToArrow(f.t), s.fs)
             \* (there is no null that may not be null)
             gs == [i \in DOMAIN fs |-> AF(s.fs[i].n, fs[i], s.fs[i].t.null \/ s.fs[i].t.k = "null")]
         IN IF AnyBad(fs) \/ (\E i \in DOMAIN fs : fs[i].a = "schema") THEN Err
            ELSE IF t.k = "struct" THEN [a |-> "struct", fs |-> gs] ELSE [a |-> "schema", fs |-> gs, meta |-> [name |-> t.name, pb |-> t.pb, cb |-> t.cb]]
    [] OTHER -> Err
RECURSIVE FromArrow(_)
FromArrow(x) ==
  CASE x.a \in Ints \cup UInts \cup Floats \cup {"string", "null"} -> T0(x.a)
    [] x.a = "bool" -> T0("boolean") [] x.a \in {"date32", "date64"} -> T0("date")
    [] x.a = "binary" -> Bin(-1) [] x.a = "fixed" -> Bin(x.size)
    [] x.a = "timestamp" -> IF x.tz = "" THEN Timed("datetime", PrecOf(x.unit)) ELSE IF x.tz \in {"UTC", "utc"} THEN Timed("timestamp", PrecOf(x.unit)) ELSE Err
    [] x.a \in {"time32", "time64"} -> Timed("time", PrecOf(x.unit))
    [] x.a = "list" -> LET e == FromArrow(x.e) IN IF Bad(e) THEN Err ELSE ListOf(e)
    [] x.a = "map" -> LET a == FromArrow(x.mk) b == FromArrow(x.mv) IN IF Bad(a) \/ Bad(b) THEN Err ELSE MapOf(a, b)
    [] x.a \in {"struct", "schema"} ->
         LET ts == Map1(LAMBDA f : FromArrow(f.t), x.fs)
             s == StructOf(Anon, [i \in DOMAIN ts |-> F(x.fs[i].n, IF Bad(ts[i]) THEN ts[i] ELSE [ts[i] EXCEPT !.null = x.fs[i].null])])
         IN IF AnyBad(ts) \/ ~Unique(x.fs) THEN Err ELSE IF x.a = "struct" THEN s
            ELSE IF x.meta = NoMeta THEN CollOf(Anon, s, <<>>, <<>>) ELSE CollOf(x.meta.name, s, x.meta.pb, x.meta.cb)
    [] OTHER -> Err
RECURSIVE ArrowKeeps(_)
ArrowKeeps(t) ==
  CASE t.k = "geography" -> IF t.format = "WKB" THEN Bin(-1) ELSE T0("string")
    [] t.k = "list" -> ListOf(ArrowKeeps(t.e)) [] t.k = "map" -> MapOf(ArrowKeeps(t.mk), ArrowKeeps(t.mv))
    [] t.k = "struct" -> StructOf(Anon, [i \in DOMAIN t.fs |-> F(t.fs[i].n, [ArrowKeeps(t.fs[i].t) EXCEPT !.null = t.fs[i].t.null \/ t.fs[i].t.k = "null"])])
    [] t.k = "collection" -> CollOf(t.name, ArrowKeeps(t.e), t.pb, t.cb)
    [] OTHER -> Says(NotN(t), "")
RECURSIVE ArrowPlain(_)
ArrowPlain(x) ==
  CASE x.a = "date32" -> A0("date64") [] x.a = "timestamp" /\ x.tz = "utc" -> ATs(x.unit, "UTC")
    [] x.a = "list" -> [x EXCEPT !.e = ArrowPlain(@)] [] x.a = "map" -> [x EXCEPT !.mk = ArrowPlain(@), !.mv = ArrowPlain(@)]
    [] x.a = "struct" -> [x EXCEPT !.fs = Map1(LAMBDA f : [f EXCEPT !.t = ArrowPlain(@)], @)]
    [] x.a = "schema" -> [a |-> "schema", fs |-> Map1(LAMBDA f : [f EXCEPT !.t = ArrowPlain(@)], x.fs), meta |-> IF x.meta = NoMeta THEN [name |-> Anon, pb |-> <<>>, cb |-> <<>>] ELSE x.meta]
    [] OTHER -> x

(* ---- BigQuery: fields [b, n, mode, d, fs] and tables [b = "table", ...] ---- *)
BQ(b, n, mode, d, fs) == [b |-> b, n |-> n, mode |-> mode, d |-> d, fs |-> fs]
Mode(t) == IF t.null THEN "NULLABLE" ELSE "REQUIRED"
Days == {"date", "datetime", "timestamp"}
TableName(n) == IF n = Anon THEN "project.dataset.table" ELSE n
Qualified(n) == n # "short"
RECURSIVE ToBQ(_, _)
ToBQ(t, n) ==
  LET leaf(b) == BQ(b, n, Mode(t), t.d, <<>>) IN
  CASE t.k \in Ints -> leaf("INTEGER") [] t.k \in Floats -> leaf("FLOAT") [] t.k = "boolean" -> leaf("BOOLEAN") [] t.k = "binary" -> leaf("BYTES")
    [] t.k = "string" -> leaf("STRING") [] t.k = "date" -> leaf("DATE") [] t.k = "datetime" -> leaf("DATETIME") [] t.k = "time" -> leaf("TIME")
    [] t.k = "timestamp" -> leaf("TIMESTAMP") [] t.k = "geography" -> leaf("GEOGRAPHY")
    [] t.k = "struct" -> LET fs == Map1(LAMBDA f : ToBQ(f.t, f.n), t.fs) IN IF AnyBad(fs) \/ (\E i \in DOMAIN fs : fs[i].b = "table") THEN Err ELSE BQ("RECORD", n, Mode(t), t.d, fs)
    [] t.k = "list" -> LET e == ToBQ(t.e, n) IN IF Bad(e) \/ t.e.k \in {"list", "collection"} THEN Err ELSE [e EXCEPT !.mode = "REPEATED", !.d = IF t.d = "" THEN @ ELSE t.d]
    [] t.k = "collection" ->
         LET e == ToBQ(t.e, n) IN
         IF Bad(e) \/ ~Qualified(t.name) THEN Err
         ELSE IF t.pb # <<>> /\ FieldT(t.e.fs, t.pb[1]).k \notin Days THEN Err
         ELSE [b |-> "table", n |-> TableName(t.name), d |-> t.d, fs |-> e.fs, day |-> IF t.pb = <<>> THEN "" ELSE t.pb[1], filter |-> t.pb # <<>>,
               cb |-> (IF t.pb = <<>> THEN <<>> ELSE Tail(t.pb)) \o t.cb, odd |-> ""]
    [] OTHER -> Err
BQKinds == [INTEGER |-> "int64", FLOAT |-> "float64", BOOLEAN |-> "boolean", STRING |-> "string", DATE |-> "date"]
RECURSIVE FromBQ(_)
FromBQ(x) ==
  IF x.b = "table" THEN
    LET fs == Map1(FromBQ, x.fs) IN
    IF AnyBad(fs) \/ x.odd # "" THEN Err
    ELSE Says(CollOf(x.n, StructOf(Anon, [i \in DOMAIN fs |-> F(x.fs[i].n, fs[i])]), IF x.day = "" THEN <<>> ELSE <<x.day>>, x.cb), x.d)
  ELSE IF x.mode = "REPEATED" THEN LET e == FromBQ([x EXCEPT !.mode = "REQUIRED"]) IN IF Bad(e) THEN Err ELSE Says(ListOf(e), x.d)
  ELSE LET is(t) == Says([t EXCEPT !.null = x.mode = "NULLABLE"], x.d) IN
       CASE x.b \in DOMAIN BQKinds -> is(T0(BQKinds[x.b])) [] x.b = "BYTES" -> is(Bin(-1)) [] x.b = "GEOGRAPHY" -> is(Geo(""))
         [] x.b = "DATETIME" -> is(Timed("datetime", "microsecond")) [] x.b = "TIME" -> is(Timed("time", "microsecond")) [] x.b = "TIMESTAMP" -> is(Timed("timestamp", "microsecond"))
         [] x.b = "RECORD" -> LET fs == Map1(FromBQ, x.fs) IN IF AnyBad(fs) THEN Err ELSE is(StructOf(Anon, [i \in DOMAIN fs |-> F(x.fs[i].n, fs[i])]))
         [] OTHER -> Err
RECURSIVE BQKeeps(_)
BQKeeps(t) ==
  LET is(u) == [u EXCEPT !.null = t.null, !.d = t.d] IN
  CASE t.k \in Ints -> is(T0("int64")) [] t.k \in Floats -> is(T0("float64")) [] t.k = "binary" -> is(Bin(-1)) [] t.k = "geography" -> is(Geo(""))
    [] t.k \in {"datetime", "time", "timestamp"} -> is(Timed(t.k, "microsecond"))
    [] t.k = "struct" -> is(StructOf(Anon, [i \in DOMAIN t.fs |-> F(t.fs[i].n, BQKeeps(t.fs[i].t))]))
    \* One description for an array and what is in it, neither of which may be null
    [] t.k = "list" -> LET d == IF t.d = "" THEN t.e.d ELSE t.d IN Says(ListOf(Says(NotN(BQKeeps(t.e)), d)), d)
    [] t.k = "collection" -> LET e == BQKeeps(t.e) IN Says(CollOf(TableName(t.name), Says(NotN(e), ""), IF t.pb = <<>> THEN <<>> ELSE <<t.pb[1]>>, (IF t.pb = <<>> THEN <<>> ELSE Tail(t.pb)) \o t.cb), t.d)
    [] OTHER -> t

(* ---- NumPy: scalar types, dtypes and arrays; pandas: series and frames too ---- *)
NpKinds == Ints \cup UInts \cup Floats
NS(c) == [np |-> "scalar", c |-> c]
NArr(dims, c) == [np |-> "array", dims |-> dims, c |-> c]
NpName(t) == CASE t.k \in NpKinds -> t.k [] t.k = "boolean" -> "bool" [] t.k = "string" -> "str" [] t.k = "binary" -> "bytes" [] OTHER -> ""
RECURSIVE ToNp(_)
ToNp(t) ==
  IF t.k = "list" THEN LET e == ToNp(t.e) IN IF Bad(e) THEN Err ELSE IF e.np = "scalar" THEN NArr(1, e.c) ELSE NArr(e.dims + 1, e.c)
  ELSE IF NpName(t) = "" THEN Err ELSE NS(NpName(t))
NpT(c) == CASE c \in NpKinds -> T0(c) [] c = "bool" -> T0("boolean") [] c = "str" -> T0("string") [] c = "bytes" -> Bin(-1) [] OTHER -> Err
RECURSIVE Lists(_, _)
Lists(n, t) == IF n = 0 THEN t ELSE ListOf(Lists(n - 1, t))
FromNp(x) ==
  CASE x.np = "scalar" -> NpT(x.c)
    [] x.np = "dtype" -> IF x.c \in {"str", "bytes"} THEN Err ELSE NpT(x.c)
    [] x.np = "array" -> IF Bad(NpT(x.c)) THEN Err ELSE Lists(x.dims, NpT(x.c))
    [] OTHER -> Err
Series(c) == [np |-> "series", c |-> c]
Frame(fs) == [np |-> "frame", fs |-> fs]
Strings == {"str gaps", "str gap first", "str long"}     \* (missing values are ignored)
Column(c) == CASE c \in NpKinds -> T0(c) [] c = "bool" -> T0("boolean") [] c \in {"str", "str gaps", "str gap first", "str long"} -> T0("string") [] OTHER -> Err
ToPd(t) ==
  IF t.k \in {"list", "collection"} THEN
    (IF t.e.k = "struct" THEN IF \E i \in DOMAIN t.e.fs : NpName(t.e.fs[i].t) = "" THEN Err ELSE Frame([i \in DOMAIN t.e.fs |-> F(t.e.fs[i].n, NpName(t.e.fs[i].t))])
     ELSE IF NpName(t.e) = "" THEN Err ELSE Series(NpName(t.e)))
  ELSE ToNp(t)
FromPd(x) ==
  CASE x.np = "series" -> LET e == Column(x.c) IN IF Bad(e) THEN Err ELSE ListOf(e)
    [] x.np = "frame" -> IF (\E i \in DOMAIN x.fs : Bad(Column(x.fs[i].t))) \/ ~Unique(x.fs) THEN Err ELSE ListOf(StructOf(Anon, [i \in DOMAIN x.fs |-> F(x.fs[i].n, Column(x.fs[i].t))]))
    [] OTHER -> FromNp(x)
RECURSIVE NpKeeps(_)
NpKeeps(t) == CASE t.k = "list" -> ListOf(NpKeeps(t.e)) [] t.k = "binary" -> Bin(-1) [] OTHER -> T0(t.k)
PdKeeps(t) ==
  IF t.k \in {"list", "collection"} /\ t.e.k = "struct" THEN ListOf(StructOf(Anon, [i \in DOMAIN t.e.fs |-> F(t.e.fs[i].n, NpKeeps(t.e.fs[i].t))])) ELSE NpKeeps(t)

(* ---- any system ---- *)
To(t) == CASE System \in {"python", "pydantic"} -> ToPy(t) [] System = "pyarrow" -> ToArrow(t) [] System = "bigquery" -> ToBQ(t, Anon) [] System = "numpy" -> ToNp(t) [] System = "pandas" -> ToPd(t)
From(x) == CASE System \in {"python", "pydantic"} -> FromPy(x) [] System = "pyarrow" -> FromArrow(x) [] System = "bigquery" -> FromBQ(x) [] System = "numpy" -> FromNp(x) [] System = "pandas" -> FromPd(x)
Keeps(t) == CASE System \in {"python", "pydantic"} -> PyKeeps(t) [] System = "pyarrow" -> ArrowKeeps(t) [] System = "bigquery" -> BQKeeps(t) [] System = "numpy" -> NpKeeps(t) [] System = "pandas" -> PdKeeps(t)
Plain(x) == CASE System \in {"python", "pydantic"} -> PyPlain(x) [] System = "pyarrow" -> ArrowPlain(x) [] System = "bigquery" -> x
              [] OTHER -> IF x.np = "dtype" THEN NS(x.c) ELSE IF System = "pandas" /\ x.np = "array" THEN Series(x.c)
                          ELSE IF x.np = "series" /\ x.c \in Strings THEN Series("str")
                          ELSE IF x.np = "frame" THEN Frame([i \in DOMAIN x.fs |-> F(x.fs[i].n, IF x.fs[i].t \in Strings THEN "str" ELSE x.fs[i].t)]) ELSE x

(* ---- cases ---- *)
Strs == T0("string")
I64 == T0("int64")
Scalars == {T0(k) : k \in Ints \cup UInts \cup Floats \cup {"string", "null", "boolean", "date"}} \cup {Bin(n) : n \in {-1, 0, 1, 16}} \cup {Timed(k, p) : k \in {"datetime", "time", "timestamp"}, p \in Precisions}
           \cup {Geo(f) : f \in {"", "WKB", "WKT"}}
           \cup {EnumOf(n, ScalarT(LitKind(v)), InOrder({v})) : v \in {"s:a", "i:1", "b:1", "y:x"}, n \in {Anon, "E"}} \cup {EnumOf(Anon, T0(k), <<"i:1", "i:2", "i:3">>) : k \in {"int8", "int64"}}
           \cup {EnumOf(Anon, Strs, <<"s:a", "s:b">>), EnumOf(Anon, N(Strs), <<"s:a", "s:c">>)}
Few == {I64, Strs, T0("boolean"), Timed("timestamp", "microsecond"), N(I64), T0("null"), EnumOf("E", Strs, <<"s:a", "s:b">>), N(T0("date")), T0("uint8"), T0("float32"), Bin(4)}
Descr == IF System = "bigquery" THEN {"", "x"} ELSE {""}
Described(E) == UNION {{Says(t, d) : d \in Descr} : t \in E}
S1(e) == StructOf("S", <<F("a", e)>>)
Con(E) == UNION {{ListOf(e), SetOf(e), S1(e)} : e \in E} \cup {MapOf(k, e) : k \in {Strs, N(I64)}, e \in E}
Nulls(E) == E \cup {N(e) : e \in E}
L0 == Nulls(Scalars)
ConFew == Con(Few)
Pairs == {StructOf(n, <<F("a", e), F("b", f)>>) : n \in {Anon, "P"}, e \in Few, f \in Few} \cup {StructOf(Anon, <<>>)} \cup {StructOf(Anon, <<F("b", I64), F("a", Strs), F("c", N(I64))>>)}
\* Collections over one struct with fields of many kinds, in all partitions and clusters of up to two fields
Wide == StructOf(Anon, <<F("d", T0("date")), F("i", I64), F("s", N(Strs)), F("t", N(Timed("timestamp", "second"))), F("m", Timed("datetime", "millisecond"))>>)
Keys == {<<>>} \cup {<<f>> : f \in {"d", "i", "s", "t", "m"}} \cup {<<f, g>> : f \in {"d", "t", "s"}, g \in {"i", "m"}}
Colls == {CollOf(n, Wide, p, q) : n \in {Anon, "p.d.t", "short"}, p \in Keys, q \in Keys}
CollsOK == {x \in Colls : Rng(x.pb) \cap Rng(x.cb) = {}} \cup {CollOf("p.d.t", e, <<>>, <<>>) : e \in Pairs \cup {S1(f) : f \in L0}} \cup {N(CollOf("p.d.t", N(Wide), <<"d">>, <<>>)), Says(CollOf("p.d.t", Says(Wide, "y"), <<>>, <<"s">>), "x")}
OneColl == CollOf("p.d.t", S1(I64), <<>>, <<>>)
L1 == Con(L0) \cup {N(t) : t \in ConFew} \cup Pairs \cup CollsOK
Some1 == ConFew \cup {N(S1(I64)), N(ListOf(I64)), StructOf("P", <<F("a", N(I64)), F("b", Strs)>>), OneColl}
L2 == Con(Some1) \cup {StructOf(Anon, <<F("a", e), F("b", f)>>) : e \in Some1, f \in {I64, N(S1(Strs)), ListOf(S1(I64))}} \cup {CollOf("p.d.t", S1(e), <<>>, <<>>) : e \in Some1}
L3 == IF Deeper THEN Con(L2) \cup {N(t) : t \in L2} \cup {CollOf("p.d.t", S1(e), <<>>, <<>>) : e \in L2} \cup {StructOf("R", <<F("x", e), F("y", f)>>) : e \in Some1, f \in Some1} ELSE {}
DescrCases == {ListOf(Says(I64, "x")), Says(ListOf(I64), "x"), Says(ListOf(Says(I64, "y")), "x"), S1(Says(ListOf(I64), "x")), Says(ListOf(S1(I64)), "x"), ListOf(Says(S1(Says(I64, "z")), "x")),
               Says(S1(Says(N(I64), "y")), "x"), Says(ListOf(N(Says(S1(I64), "y"))), "x")}
TypeCases == Described(L0) \cup L1 \cup L2 \cup L3 \cup DescrCases

PyScalars == {Cls(n) : n \in {"int", "bool", "str", "float", "bytes", "date", "datetime"}} \cup {NoneH, Lit(<<"s:a">>), Lit(<<"s:a", "s:b">>), Lit(<<"i:1", "i:2">>), Lit(<<"b:1">>), Lit(<<"y:x">>), LitU(<<"s:a">>, <<"s:b", "s:c">>)}
PyOdd == {Lit(<<"i:1", "s:a">>), Lit(<<"b:1", "i:2">>), LitU(<<"i:1">>, <<"s:a">>)} \cup {Odd(x) : x \in {"Any", "object", "complex", "list", "dict", "tuple", "tuple pair", "tuple one", "int|str", "int|str|None", "list|None of any", "TypeVar", "Callable", "Literal|int",
                                                                                        "Sequence", "Iterable", "type", "time", "timedelta", "Decimal", "class", "Literal a|None", "enum literal", "Set"}}
PyTop == {Odd(x) : x \in {"ellipsis", "value", "frozendict"}}
PyCon(E) == UNION {{Of("list", e), Of("tuple", e), Of("set", e), Of("frozenset", e), Opt(e), TD("D", <<F("a", e)>>), Model("M", <<F("a", e)>>)} : e \in E} \cup {MapH(x, k, e) : x \in {"dict", "Mapping"}, k \in {Cls("str"), Opt(Cls("int"))}, e \in E}
NotTwice(E) == {h \in E : ~(h.g = "opt" /\ h.h.g \in {"opt", "none"})}
PyFew == {Cls("int"), Cls("str"), Cls("bool"), NoneH, Lit(<<"s:a", "s:b">>), Opt(Cls("int")), Odd("int|str"), Odd("complex"), Cls("datetime")}
Py1 == NotTwice(PyCon(PyScalars \cup PyOdd)) \cup UNION {{TD("DD", <<F("b", e), F("a", f)>>), Model("MM", <<F("b", e), F("a", f)>>)} : e \in PyFew, f \in PyFew} \cup {TD("Z", <<>>), Model("Z", <<>>), TDPart("Q", <<F("a", Cls("int"))>>)}
PySome == NotTwice(PyCon(PyFew))
Py2 == NotTwice(PyCon(PySome)) \cup {Model("MN", <<F("x", e), F("y", f)>>) : e \in PySome, f \in {Opt(Model("I", <<F("a", Cls("int"))>>)), Opt(Lit(<<"s:a">>)), Cls("int")}}
Py3 == IF Deeper THEN NotTwice(PyCon(Py2)) ELSE {}

ArrowScalars == {A0(x) : x \in Ints \cup UInts \cup Floats \cup {"string", "null", "bool", "date32", "date64", "binary"}} \cup {[a |-> "fixed", size |-> n] : n \in {0, 1, 16}}
                \cup {ATs(u, z) : u \in Rng(Units), z \in {"", "UTC", "utc", "Europe/Paris", "+01:00"}} \cup {AU("time32", u) : u \in {"s", "ms"}} \cup {AU("time64", u) : u \in {"us", "ns"}}
ArrowOdd == {A0(x) : x \in {"decimal128", "large_string", "large_binary", "large_list", "dictionary", "duration", "fixed list", "string_view", "dense union", "interval", "int", "run end", "list_view"}}
AFew == {A0("int8"), A0("string"), A0("date32"), ATs("us", "UTC"), A0("decimal128"), ATs("s", "Europe/Paris"), A0("bool")}
ACon(E) == UNION {{[a |-> "list", e |-> e], [a |-> "struct", fs |-> <<AF("a", e, TRUE)>>], [a |-> "struct", fs |-> <<AF("a", e, e = A0("null"))>>]} : e \in E} \cup {[a |-> "map", mk |-> k, mv |-> e] : k \in {A0("string"), A0("int64")}, e \in E}
Structs == {[a |-> "struct", fs |-> <<AF("b", e, x), AF(n, f, y)>>] : e \in AFew, f \in AFew, x \in BOOLEAN, y \in BOOLEAN, n \in {"a", "b"}} \cup {[a |-> "struct", fs |-> <<>>]}
Metas == {NoMeta, [name |-> "t", pb |-> <<>>, cb |-> <<>>], [name |-> Anon, pb |-> <<"b">>, cb |-> <<>>], [name |-> Anon, pb |-> <<>>, cb |-> <<"b">>]}
Schemas == {[a |-> "schema", fs |-> s.fs, meta |-> m] : s \in {s \in Structs : s.fs # <<>>}, m \in Metas} \cup {[a |-> "schema", fs |-> <<>>, meta |-> NoMeta]}
Arrow1 == ACon(ArrowScalars \cup (ArrowOdd \ {A0("int")})) \cup Structs \cup Schemas
Arrow2 == ACon(ACon(AFew) \cup {[a |-> "struct", fs |-> <<AF("b", A0("int8"), TRUE), AF("a", A0("string"), FALSE)>>]})
Arrow3 == IF Deeper THEN ACon(Arrow2) \cup {[a |-> "schema", fs |-> <<AF("x", e, FALSE)>>, meta |-> NoMeta] : e \in Arrow2} ELSE {}

Modes == {"REQUIRED", "NULLABLE", "REPEATED"}
BQScalars == {BQ(b, "f", m, d, <<>>) : b \in {"INTEGER", "FLOAT", "BOOLEAN", "BYTES", "STRING", "DATE", "DATETIME", "TIME", "TIMESTAMP", "GEOGRAPHY", "NUMERIC", "BIGNUMERIC", "JSON", "INTERVAL"}, m \in Modes, d \in {"", "x"}}
BQFew == {BQ("INTEGER", "i", m, "", <<>>) : m \in Modes} \cup {BQ("STRING", "s", "NULLABLE", "x", <<>>), BQ("NUMERIC", "z", "REQUIRED", "", <<>>), BQ("TIMESTAMP", "t", "REQUIRED", "", <<>>)}
BQRec(n, E) == {BQ("RECORD", n, m, d, <<e>>) : e \in E, m \in Modes, d \in {"", "x"}}
BQPairs(n) == {BQ("RECORD", n, m, "", <<e, f>>) : e \in BQFew, f \in {BQ("STRING", "b", "REQUIRED", "", <<>>), BQ("RECORD", "r", "REPEATED", "y", <<BQ("FLOAT", "q", "NULLABLE", "", <<>>)>>)}, m \in Modes}
Table(n, fs, day, cb, odd) == [b |-> "table", n |-> n, d |-> "", fs |-> fs, day |-> day, filter |-> FALSE, cb |-> cb, odd |-> odd]
TFs == <<BQ("DATE", "d", "NULLABLE", "", <<>>), BQ("INTEGER", "i", "REQUIRED", "w", <<>>), BQ("STRING", "s", "REPEATED", "", <<>>), BQ("RECORD", "r", "NULLABLE", "", <<BQ("TIMESTAMP", "t", "REQUIRED", "", <<>>)>>)>>
BQTables == {Table("p.d.t", TFs, x, k, o) : x \in {"", "d"}, k \in {<<>>, <<"i">>, <<"s", "i">>}, o \in {"", "hour", "month", "range", "ingestion"}} \cup {Table("p.d.t2", <<e>>, "", <<>>, "") : e \in BQScalars} \cup {[Table("p.d.t", TFs, "", <<>>, "") EXCEPT !.d = "x"], Table("p.d.t", <<>>, "", <<>>, "")}
BQ1 == BQRec("r", BQScalars) \cup BQPairs("r")
BQ2 == BQRec("q", BQPairs("r")) \cup {Table("p.d.t", <<e, BQ("INTEGER", "k", "REQUIRED", "", <<>>)>>, "", <<"k">>, "") : e \in BQPairs("r")}
BQ3 == IF Deeper THEN BQRec("p", BQ2 \ {x \in BQ2 : x.b = "table"}) \cup {Table("p.d.t", <<e>>, "", <<>>, "") : e \in BQ1} ELSE {}

NpOdd == {"complex64", "complex128", "datetime64", "timedelta64", "object", "void", "longdouble", "structured"}
NpAll == NpKinds \cup {"bool", "str", "bytes"} \cup NpOdd
NpCases == {NS(x) : x \in NpAll \ {"structured"}} \cup {[np |-> "dtype", c |-> x] : x \in NpAll} \cup {NArr(n, x) : n \in 1..3, x \in NpAll \ {"void"}} \cup {[np |-> "odd", c |-> x] : x \in {"int", "float", "None", "list", "str name", "big endian", "0-d", "Int64", "mixed objects", "number objects", "arti"}}
PdCols == NpKinds \cup {"bool", "str"} \cup {"complex128", "datetime64", "timedelta64", "objects", "mixed", "mixed late", "Int64", "boolean", "category", "string", "none", "lists"}
PdCases == {x \in NpCases : x.np # "odd" \/ x.c # "arti"} \cup {Series(x) : x \in PdCols} \cup {Frame(<<F("a", x)>>) : x \in PdCols} \cup {Frame(<<F("b", x), F("a", y)>>) : x \in PdCols, y \in {"int64", "str", "float32", "objects"}}
           \cup UNION {{Series(x), Frame(<<F("a", x)>>), Frame(<<F("b", x), F("a", "str")>>), Frame(<<F("a", "str long"), F("b", x)>>)} : x \in Strings \cup {"mixed long", "bytes late", "bytes long"}}
           \cup {Frame(<<>>), Frame(<<F("a", "int8"), F("a", "str")>>), Frame(<<F("a", "int8"), F("b", "str"), F("c", "bool"), F("B", "uint16")>>)}
SysCases == CASE System \in {"python", "pydantic"} -> PyScalars \cup PyOdd \cup PyTop \cup Py1 \cup Py2 \cup Py3
              [] System = "pyarrow" -> ArrowScalars \cup ArrowOdd \cup Arrow1 \cup Arrow2 \cup Arrow3
              [] System = "bigquery" -> BQScalars \cup BQ1 \cup BQ2 \cup BQ3 \cup BQTables
              [] System = "numpy" -> NpCases [] System = "pandas" -> PdCases
\* Types that come back other than as the rest: binary columns of pandas are left open
Open(t) == System = "pandas" /\ (\E u \in {t} \cup (IF t.k \in {"list", "collection"} THEN {t.e} \cup (IF t.e.k = "struct" THEN {t.e.fs[i].t : i \in DOMAIN t.e.fs} ELSE {}) ELSE {}) : u.k = "binary")

VARIABLE c
Init == c = [dir |-> "", n |-> 0]
Batch == 1..64
TypeSeq == SetToSeq(TypeCases)
SysSeq == SetToSeq(SysCases)
Next == \/ c.dir = "" /\ c.n = 0 /\ \E b \in Batch : c' = [dir |-> "", n |-> b]
        \/ c.dir = "" /\ c.n > 0 /\ (\/ \E t \in LET s == TypeSeq IN {s[i] : i \in {i \in 1..Len(s) : i % 64 = c.n - 1}} : c' = [dir |-> "to", t |-> t]
                                     \/ \E t \in LET s == SysSeq IN {s[i] : i \in {i \in 1..Len(s) : i % 64 = c.n - 1}} : c' = [dir |-> "from", t |-> t])
Laws ==
  /\ c.dir = "to" /\ ~Open(c.t) => LET x == To(c.t) IN Bad(x) \/ (From(x) = Keeps(c.t) /\ To(Keeps(c.t)) = Plain(x) /\ Keeps(Keeps(c.t)) = Keeps(c.t))
  /\ c.dir = "from" => LET t == From(c.t) IN Bad(t) \/ Open(t) \/ (System = "pandas" /\ Bad(To(t))) \/ (From(To(t)) = Keeps(t) /\ (System # "pydantic" => Keeps(t) = t) /\ (System # "bigquery" => To(t) = Plain(c.t)))
Emit == IF c.dir = "" THEN TRUE
        ELSE IF c.dir = "to" THEN PrintT("@C" \o ToJson([c |-> c, want |-> LET x == To(c.t) IN IF Bad(x) THEN Err ELSE IF Open(c.t) THEN [x |-> x, open |-> TRUE] ELSE [x |-> x, back |-> Keeps(c.t)]]))
        ELSE PrintT("@C" \o ToJson([c |-> c, want |-> LET t == From(c.t) IN IF Bad(t) THEN Err ELSE [x |-> t, back |-> To(t)]]))
=============================================================================
