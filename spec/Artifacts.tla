------------------------------- MODULE Artifacts -------------------------------
(* Artifacts: casting values to them, class defaults through an artifact's life, and what type and format say about storage. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Which, Deeper
Rng(s) == {s[i] : i \in DOMAIN s}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Refused == [refused |-> TRUE]

(* ---- casting ---- *)
Atoms == {"none", "true", "false", "0", "1", "-7", "1.0", "2.5", "'a'", "''", "'{x}'", "'1'", "bytes", "date", "datetime"}
ClassOf(a) == CASE a = "none" -> "NoneType" [] a \in {"true", "false"} -> "bool" [] a \in {"0", "1", "-7"} -> "int" [] a \in {"1.0", "2.5"} -> "float"
                [] a \in {"'a'", "''", "'{x}'", "'1'"} -> "str" [] OTHER -> a
Inst(a, cls) == ClassOf(a) = cls \/ (ClassOf(a) = "bool" /\ cls = "int") \/ (ClassOf(a) = "datetime" /\ cls = "date")
TypeOf(cls) == CASE cls = "NoneType" -> "Null" [] cls = "bool" -> "Boolean" [] cls = "int" -> "Int64" [] cls = "float" -> "Float64" [] cls = "str" -> "String"
Holds(a) == ClassOf(a) \in {"NoneType", "bool", "int", "float", "str"}          \* what JSON can hold
Alike(xs) == \A i \in DOMAIN xs : Inst(xs[i], ClassOf(xs[1])) /\ Holds(xs[i])
\* Equal keys of a dictionary are one key
Num(a) == CASE a \in {"true", "1", "1.0"} -> "1" [] a \in {"false", "0"} -> "0" [] OTHER -> a
KeySeqs == {s \in Seqs(Atoms \ {"'{x}'", "2.5"}, 2) : \A i, j \in DOMAIN s : Num(s[i]) = Num(s[j]) => i = j}
Plain == {[k |-> "atom", a |-> a] : a \in Atoms}
         \cup {[k |-> c, xs |-> s] : c \in {"list", "tuple"}, s \in Seqs(Atoms, 2) \cup (IF Deeper THEN Seqs(Atoms \ {"'{x}'", "''", "-7", "bytes", "datetime"}, 3) ELSE Seqs({"1", "true", "'a'", "none"}, 3))}
         \cup {[k |-> c, xs |-> s] : c \in {"set", "frozenset"}, s \in {<<>>, <<"1">>, <<"'a'">>, <<"'a'", "'1'">>}}
         \cup UNION {{[k |-> "dict", ks |-> s, xs |-> v] : v \in [DOMAIN s -> IF Deeper THEN Atoms ELSE {"1", "true", "'a'", "2.5", "none", "date"}]} : s \in KeySeqs}
         \cup {[k |-> "nest", c |-> c, e |-> e] : c \in {"list", "tuple", "dict"}, e \in {"list", "tuple", "dict", "set", "object", "class"}}
         \cup {[k |-> "other", o |-> o] : o \in {"object", "class", "function", "complex", "range", "bytearray", "artifact class", "producer class", "type", "two outputs", "lambda"}}
         \cup {[k |-> "kept", o |-> o] : o \in {"artifact", "sub artifact", "produced", "one output"}}
PlainWant(v) ==
  CASE v.k = "atom" -> IF Holds(v.a) THEN [type |-> TypeOf(ClassOf(v.a)), back |-> v] ELSE Refused
    [] v.k \in {"list", "tuple"} -> IF v.xs = <<>> \/ ~Alike(v.xs) THEN Refused ELSE [type |-> "List(" \o TypeOf(ClassOf(v.xs[1])) \o ")", back |-> [v EXCEPT !.k = "list"]]
    [] v.k = "dict" -> IF v.ks = <<>> \/ ~Alike(v.ks) \/ ~Alike(v.xs) THEN Refused ELSE [type |-> "Map(" \o TypeOf(ClassOf(v.ks[1])) \o "," \o TypeOf(ClassOf(v.xs[1])) \o ")", back |-> v]
    [] v.k = "kept" -> [kept |-> v.o]
    [] OTHER -> Refused
\* (assigning a dictionary to a graph assigns what it maps to)
IsDict(v) == v.k = "dict" \/ (v.k = "nest" /\ v.c = "dict")
Casts == [v : Plain, by : {"cast", "subclass"}] \cup [v : {v \in Plain : ~IsDict(v)}, by : {"assign", "nested", "mapping"}]

(* ---- class defaults through an artifact's life ---- *)
Classes == {"plain", "base", "child", "other", "grand"}
DefaultA(k) == CASE k = "plain" -> <<>> [] k \in {"base", "child"} -> <<"A1">> [] k = "other" -> <<"A2", "A4">> [] k = "grand" -> <<"A2", "A4">>
DefaultS(k) == CASE k \in {"plain", "other"} -> <<>> [] k \in {"base"} -> <<>> [] k \in {"child"} -> <<"S1">> [] k = "grand" -> <<"S2">>
Omitted == <<"omitted">>
Ops == {"copy", "deepcopy", "update", "deep", "validate", "field", "cast", "out", "graph", "input"}
Lives == [cls : Classes, a : {Omitted, <<>>, <<"A3">>, <<"A5", "A3">>}, s : {Omitted, <<>>, <<"S3">>}, ops : Seqs(Ops, IF Deeper THEN 3 ELSE 2)]
\* Whether each step is accepted; a refused step leaves the artifact as it was
Life(x) ==
  FoldLeft(LAMBDA st, op :
             CASE op = "out" -> IF st.produced THEN [st EXCEPT !.steps = Append(@, "refused")] ELSE [st EXCEPT !.steps = Append(@, "ok"), !.produced = TRUE]
               [] op = "graph" -> IF st.produced /\ st.stripped THEN [st EXCEPT !.steps = Append(@, "refused")] ELSE [st EXCEPT !.steps = Append(@, "ok"), !.stripped = ~st.produced \/ @]
               [] OTHER -> [st EXCEPT !.steps = Append(@, "ok")],
           [steps |-> <<>>, produced |-> FALSE, stripped |-> FALSE], x.ops)
LifeWant(x) == LET st == Life(x) IN
  [a |-> DefaultA(x.cls) \o (IF x.a = Omitted THEN <<>> ELSE x.a), s |-> DefaultS(x.cls) \o (IF x.s = Omitted THEN <<>> ELSE x.s), cls |-> x.cls, steps |-> st.steps, produced |-> st.produced]

(* ---- types, formats, storage ---- *)
Types == {"none", "Int64", "UInt8", "Date", "Geography", "ListGeography", "MapUInt8", "Coll d", "Coll d i", "List"}
Formats == {"none", "JSON", "Pickle", "Numpy", "NumpyDotted"}
Storages == {"none", "file", "file plain", "file dirs", "literal", "file default"}
PySays == {"Int64", "Date", "Coll d", "Coll d i", "List"}
NpSays == {"Int64", "UInt8"}
Supports(f, t) == IF f \in {"JSON", "Pickle"} THEN t \in PySays ELSE t \in NpSays
Ext(f) == CASE f = "JSON" -> ".json" [] f = "Pickle" -> ".pickle" [] f = "Numpy" -> "" [] f = "NumpyDotted" -> ".tar.gz"
Keys(t) == CASE t = "Coll d" -> "d_Y={d.Y}/d_m={d.m:02}/d_d={d.d:02}/" [] t = "Coll d i" -> "d_Y={d.Y}/d_m={d.m:02}/d_d={d.d:02}/i_value={i.value}/" [] OTHER -> ""
Default == "{graph_name}/{path_tags}/{names}/"
Path(s, t, f) ==
  CASE s = "file" -> "/r/" \o Keys(t) \o "{input_fingerprint}/{name}" \o Ext(f)
    [] s = "file plain" -> "/r/fixed"
    [] s = "file dirs" -> "/r/{name}/" \o Keys(t) \o "part" \o Ext(f)
    [] s = "file default" -> Default \o Keys(t) \o "{input_fingerprint}/{name}" \o Ext(f)
    [] s = "literal" -> Default \o Keys(t) \o "{input_fingerprint}/{name}" \o Ext(f)
Or(x, d) == IF x = "none" THEN d ELSE x
Made == [ct : {"none", "Int64", "Coll d", "Geography"}, cf : {"none", "Pickle", "Numpy"}, cs : {"none", "file"}, t : Types, f : Formats, s : Storages]
MadeWant(x) ==
  LET t == Or(x.t, x.ct) f == Or(Or(x.f, x.cf), "JSON") s == Or(Or(x.s, x.cs), "literal") IN
  IF t = "none" \/ ~Supports(f, t) THEN Refused ELSE [type |-> t, format |-> f, storage |-> s, at |-> Path(s, t, f)]

Cases == CASE Which = "cast" -> Casts [] Which = "life" -> Lives [] Which = "made" -> Made
Want(x) == CASE Which = "cast" -> PlainWant(x.v) [] Which = "life" -> LifeWant(x) [] Which = "made" -> MadeWant(x)
VARIABLE c
Init == c = [n |-> 0]
Next == \/ c = [n |-> 0] /\ \E b \in 1..32 : c' = [n |-> b]
        \/ "n" \in DOMAIN c /\ c.n > 0 /\ \E x \in LET s == SetToSeq(Cases) IN {s[i] : i \in {i \in 1..Len(s) : i % 32 = c.n - 1}} : c' = [case |-> x]
Laws == "case" \in DOMAIN c => LET w == Want(c.case) IN
  CASE Which = "cast" -> "back" \in DOMAIN w => PlainWant(w.back) = w            \* what is read back casts alike
    [] Which = "life" -> LET w0 == Want([c.case EXCEPT !.ops = <<>>]) IN w.a = w0.a /\ w.s = w0.s /\ Len(w.steps) = Len(c.case.ops)
    [] Which = "made" -> "type" \in DOMAIN w => w.at = MadeWant([c.case EXCEPT !.t = w.type, !.f = w.format, !.s = w.storage]).at
Emit == "case" \notin DOMAIN c \/ PrintT("@C" \o ToJson([c |-> c.case, want |-> Want(c.case)]))
=============================================================================
