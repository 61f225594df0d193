------------------------------- MODULE Composite -------------------------------
(* Composite types: which may be made, and what follows from their definitions. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Which, Deeper
Rng(s) == {s[i] : i \in DOMAIN s}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

(* ---- collections: fields of a struct (in order), partition and cluster fields ---- *)
FieldNames == {"a", "b", "c"}
Kinds == {"Int64", "Int8", "Date", "String", "UInt8", "Null"} \cup (IF Deeper THEN {"Int16", "Int32", "Binary", "Boolean", "Timestamp"} ELSE {})
Known == {"Int8", "Int16", "Int32", "Int64", "Date", "Null"}    \* kinds partitions can be keyed by
Orders == {<<>>, <<"a">>, <<"b", "a">>, <<"c", "a", "b">>}
\* (naming a field twice is left open)
Refs == {s \in Seqs(FieldNames \cup {"z"}, 2) : Distinct(s)} \cup (IF Deeper THEN {s \in [1..3 -> FieldNames] : Distinct(s)} ELSE {<<"c", "b", "a">>})
Coll == [order : Orders, kinds : {[a |-> x, b |-> "Date", c |-> y] : x \in Kinds, y \in {"Int8", "UInt8"}}, pb : Refs, cb : Refs, name : {"anon", "n"}]
CollOK(x) == Rng(x.pb) \subseteq Rng(x.order) /\ Rng(x.cb) \subseteq Rng(x.order) /\ Rng(x.pb) \cap Rng(x.cb) = {}
CollWant(x) ==
  IF ~CollOK(x) THEN [refused |-> TRUE]
  ELSE [partitioned |-> x.pb # <<>>,
        pfields |-> [i \in DOMAIN x.pb |-> <<x.pb[i], x.kinds[x.pb[i]]>>],
        cfields |-> [i \in DOMAIN x.cb |-> <<x.cb[i], x.kinds[x.cb[i]]>>],
        keys |-> IF \E i \in DOMAIN x.pb : x.kinds[x.pb[i]] \notin Known THEN <<"refused">> ELSE [i \in DOMAIN x.pb |-> x.pb[i] \o " " \o x.kinds[x.pb[i]] \o "Field"],
        friendly |-> IF x.name = "anon" THEN "CustomStructCollection" ELSE x.name]

(* ---- enumerations ---- *)
\* Python classes of the items: what instances of each type are
ItemClass == {"int", "bool", "str", "float", "bytes", "none", "date", "datetime"}
Fits(k, i) ==
  CASE k \in {"Int8", "Int64"} -> i \in {"int", "bool"} [] k = "Boolean" -> i = "bool" [] k = "String" -> i = "str" [] k \in {"Float16", "Float64"} -> i = "float"
    [] k = "Binary" -> i = "bytes" [] k = "Date" -> i \in {"date", "datetime"} [] k = "Timestamp" -> i = "datetime"
EnumKinds == {"Int8", "Int64", "Boolean", "String", "Float16", "Float64", "Binary", "Date", "Timestamp"}
Enums == [type : EnumKinds, items : {s \in Seqs(ItemClass, IF Deeper THEN 3 ELSE 2) : Distinct(s)}, given : {"list", "set", "tuple", "frozenset", "generator"}, name : {"anon", "n"}]
EnumWant(x) == IF x.items = <<>> \/ (\E i \in DOMAIN x.items : ~Fits(x.type, x.items[i])) THEN [refused |-> TRUE]
               ELSE [friendly |-> IF x.name = "n" THEN "n" ELSE IF x.type = "Timestamp" THEN "MicrosecondTimestampEnum" ELSE x.type \o "Enum", n |-> Len(x.items)]

(* ---- friendly names ---- *)
Leaf == {[k |-> x] : x \in {"Int64", "String", "Date", "Null", "Geography", "Time"}} \cup {[k |-> "Timestamp", p |-> q] : q \in {"Second", "Millisecond", "Microsecond", "Nanosecond"}}
        \cup {[k |-> "Struct", name |-> n] : n \in {"anon", "S"}}
Wrap(E) == UNION {{[k |-> "List", e |-> e], [k |-> "Set", e |-> e]} : e \in E} \cup {[k |-> "Map", a |-> e, b |-> f] : e \in E, f \in E}
           \cup {[k |-> "Collection", name |-> n, s |-> e] : n \in {"anon", "N"}, e \in {"anon", "S"}}
L1 == Wrap(Leaf)
TypesF == Leaf \cup L1 \cup (IF Deeper THEN Wrap(L1) ELSE UNION {{[k |-> "List", e |-> e], [k |-> "Set", e |-> e], [k |-> "Map", a |-> [k |-> "String"], b |-> e]} : e \in L1})
RECURSIVE Friendly(_)
Friendly(x) ==
  CASE x.k = "Timestamp" -> x.p \o "Timestamp" [] x.k = "Struct" -> IF x.name = "anon" THEN "CustomStruct" ELSE x.name
    [] x.k \in {"List", "Set"} -> Friendly(x.e) \o x.k [] x.k = "Map" -> Friendly(x.a) \o "To" \o Friendly(x.b)
    [] x.k = "Collection" -> IF x.name = "anon" THEN Friendly([k |-> "Struct", name |-> x.s]) \o "Collection" ELSE x.name
    [] OTHER -> x.k

(* ---- definitions of partition fields, in sequence: a type has one field class ---- *)
Parts == {"value", "own", "nope"}
Defs == [type : {"T1", "T2"}, defaults : {<<"missing">>, <<>>} \cup {<<p>> : p \in Parts} \cup {<<"value", "own">>, <<"own", "nope">>}, typed : BOOLEAN, abstract : BOOLEAN]
\* A sequence of definitions: which are refused, and which class each type has afterwards
DefOK(d, taken) == d.abstract \/ (d.typed /\ d.defaults # <<"missing">> /\ "nope" \notin Rng(d.defaults) /\ d.type \notin taken)
Defining(ds) ==
  FoldLeft(LAMBDA acc, i : IF DefOK(ds[i], {acc.by[j][1] : j \in DOMAIN acc.by})
                           THEN [out |-> Append(acc.out, "ok"), by |-> IF ds[i].abstract THEN acc.by ELSE Append(acc.by, <<ds[i].type, i>>)]
                           ELSE [acc EXCEPT !.out = Append(@, "refused")], [out |-> <<>>, by |-> <<>>], [i \in DOMAIN ds |-> i])
Fine == {d \in Defs : ~d.abstract /\ d.typed /\ d.defaults \in {<<"value">>, <<>>}}
DefSeqs == [1..1 -> Defs] \cup {<<d, e>> : d \in Fine, e \in Defs} \cup {<<d, e>> : d \in Defs, e \in Fine} \cup {<<d, e, f>> : d \in Fine, e \in Fine, f \in Fine}

Cases == CASE Which = "collections" -> Coll [] Which = "enums" -> Enums [] Which = "names" -> TypesF [] Which = "fields" -> DefSeqs
Want(x) == CASE Which = "collections" -> CollWant(x) [] Which = "enums" -> EnumWant(x) [] Which = "names" -> [friendly |-> Friendly(x)] [] Which = "fields" -> Defining(x)
VARIABLE c
CaseSeq == SetToSeq(Cases)
Init == c = <<0, 0>>
Next == \/ c = <<0, 0>> /\ \E b \in 1..32 : c' = <<b, 0>>
        \/ c[1] > 0 /\ c[2] = 0 /\ \E i \in {i \in DOMAIN CaseSeq : i % 32 = c[1] - 1} : c' = <<c[1], i>>
Case == CaseSeq[c[2]]
Laws == c[2] > 0 => CASE Which = "collections" -> CollOK(Case) => Len(CollWant(Case).pfields) = Len(Case.pb)
                      [] Which = "fields" -> LET d == Defining(Case) IN Len(d.out) = Len(Case) /\ Cardinality({d.by[j][1] : j \in DOMAIN d.by}) = Len(d.by)
                      [] OTHER -> TRUE
Emit == c[2] = 0 \/ PrintT("@C" \o ToJson([c |-> Case, want |-> Want(Case)]))
=============================================================================
