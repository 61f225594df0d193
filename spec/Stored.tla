--------------------------------- MODULE Stored ---------------------------------
(* Data in storage: what is written reads back, every partition stands by itself, *)
(* and writes that fail leave no trace.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Depth,      \* how deep types nest
          More,       \* whether there are four partitions, not three
          Values      \* what is stored in them

(* ---- types with some values each, nested step by step ---- *)
\* A type is <<"Int64">>, <<"List", t>>, <<"Set", t>>, <<"Map", k, t>>, <<"Struct", t>> (fields a: t, b: Int64, c: t); a value <<kind, content>>
VARIABLES t, vs, depth, stored, act
hvars == <<stored, act>>
tvars == <<t, vs, depth>>
Of == [Int64 |-> <<"0", "-5", "max", "min">>, Float64 |-> <<"0.5", "-0.0", "1e300", "inf", "3.0">>, String |-> <<"", "a", "5", "null", "true", "quoted", "accents", "nul", "long">>,
       Boolean |-> <<"true", "false">>, Null |-> <<"null">>, OptInt |-> <<"7", "null">>, Date |-> <<"2024-01-02", "0987-12-01">>, Timestamp |-> <<"2024-01-02T03:04:05">>,
       EnumS |-> <<"a", "5">>, EnumI |-> <<"3", "-5">>]
Leaf(k, n) == <<k, Of[k][n]>>
Keys == {"String", "Int64", "Float64", "Boolean", "Null", "OptInt", "EnumS", "EnumI", "Date"}
Hashable == t[1] \in DOMAIN Of
Keep == stored = <<>> /\ act = <<>>
TInit == Keep /\ \E k \in DOMAIN Of : t = <<k>> /\ vs = [n \in DOMAIN Of[k] |-> Leaf(k, n)] /\ depth = 0
At(n) == vs[1 + (n % Len(vs))]
TNext == /\ depth < Depth /\ depth' = depth + 1 /\ UNCHANGED hvars
         /\ \/ t' = <<"List", t>> /\ vs' = <<<<"list", <<>>>>, <<"list", <<vs[1]>>>>, <<"list", vs \o <<vs[1]>>>>>>
            \/ Hashable /\ t' = <<"Set", t>> /\ vs' = <<<<"set", <<>>>>, <<"set", vs>>>>
            \/ \E k \in Keys : t' = <<"Map", <<k>>, t>> /\ vs' = <<<<"map", <<>>>>, <<"map", <<<<Leaf(k, 1), vs[1]>>>>>>, <<"map", [n \in DOMAIN Of[k] |-> <<Leaf(k, n), At(n)>>]>>>>
            \/ t' = <<"Struct", t>> /\ vs' = <<<<"struct", <<<<"a", vs[1]>>, <<"b", Leaf("Int64", 3)>>, <<"c", vs[Len(vs)]>>>>>>, <<"struct", <<<<"a", At(1)>>, <<"b", Leaf("Int64", 4)>>, <<"c", vs[1]>>>>>>>>
\* What JSON cannot say: dates and sets
RECURSIVE Jsonable(_)
Jsonable(v) == CASE v[1] \in {"Date", "Timestamp", "set"} -> FALSE
                 [] v[1] = "list" -> \A n \in DOMAIN v[2] : Jsonable(v[2][n])
                 [] v[1] = "map" -> \A n \in DOMAIN v[2] : Jsonable(v[2][n][1]) /\ Jsonable(v[2][n][2])
                 [] v[1] = "struct" -> \A n \in DOMAIN v[2] : Jsonable(v[2][n][2])
                 [] OTHER -> TRUE
\* Reading gives what was written, wherever it was; what a format cannot say is refused
TWant == [n \in DOMAIN vs |-> [JSON |-> IF Jsonable(vs[n]) THEN vs[n] ELSE <<"refused">>, Pickle |-> vs[n]]]
TLaws == \A n \in DOMAIN vs : depth = 0 => vs[n][1] = t[1]
TEmit == PrintT("@C" \o ToJson([c |-> [t |-> t, vs |-> vs], want |-> TWant]))

(* ---- histories of partitions ---- *)
Absent == "-"
\* partitions: a key and an input fingerprint each
Cells == {<<"k1", "f1">>, <<"k1", "f2">>, <<"k2", "f1">>} \cup (IF More THEN {<<"k2", "f2">>} ELSE {})
HInit == t = <<>> /\ vs = <<>> /\ depth = 0 /\ stored = [c \in Cells |-> Absent] /\ act = [op |-> "init"]
Do(a, s) == act' = a /\ stored' = s /\ UNCHANGED tvars
Write(c, v) == Do([op |-> "write", cell |-> c, value |-> v, res |-> "ok"], [stored EXCEPT ![c] = v])
\* value: what would have been written; nothing comes of it
Fail(c, how) == Do([op |-> "fail", cell |-> c, how |-> how, res |-> "error"], stored)
Erase(c) == stored[c] # Absent /\ Do([op |-> "remove", cell |-> c, res |-> "ok"], [stored EXCEPT ![c] = Absent])
\* Reading a list of partitions gives their data in that order
Read(cs) == Do([op |-> "read", cells |-> cs, res |-> IF cs = <<>> \/ \E n \in DOMAIN cs : stored[cs[n]] = Absent THEN <<"missing">> ELSE [n \in DOMAIN cs |-> stored[cs[n]]]], stored)
\* Discovering what was made from given inputs: fps says which input fingerprint for which key
Discover(fps) == Do([op |-> "discover", fps |-> fps, res |-> {<<c, stored[c]>> : c \in {c \in Cells : stored[c] # Absent /\ \E n \in DOMAIN fps : fps[n] = c}}], stored)
HNext == \/ \E c \in Cells : \/ \E v \in Values : Write(c, v)
                             \/ \E how \in {"unserialisable", "late unserialisable", "disk full", "killed"} : Fail(c, how)
                             \/ Erase(c)
         \/ \E n \in 0..2 : \E cs \in [1..n -> Cells] : (n = 2 => cs[1] # cs[2]) /\ Read(cs)
         \/ \E cs \in {s \in [1..Cardinality(Cells) -> Cells] : \A m, n \in DOMAIN s : s[m] = s[n] => m = n} : Read(cs)
         \* (one input fingerprint per key)
         \/ \E S \in SUBSET Cells \ {{}} : (\A c, d \in S : c[1] = d[1] => c = d) /\ Discover(SetToSeq(S))
HLaws == [][\A c \in Cells : stored'[c] # stored[c] => act'.op \in {"write", "remove"} /\ act'.cell = c]_hvars
Pairs(f) == {<<c, f[c]>> : c \in {c \in Cells : f[c] # Absent}}
HView == stored
HEdge == act'.op = "init" \/ PrintT("@E" \o ToJson([s |-> Pairs(stored), a |-> act', t |-> Pairs(stored')]))
=============================================================================
