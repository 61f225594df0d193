------------------------------- MODULE Models -------------------------------
(* Models are values: what identifies one, what changes nothing about it, and *)
(* what none accepts. Values are records whose only field tells their kind.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

I(n) == [int |-> n]
Str(s) == [str |-> s]
B(b) == [bool |-> b]
Flt(s) == [float |-> s]
None == [none |-> 0]
Tup(q) == [tup |-> q]
SetOf(q) == [set |-> q]                 \* (listed in one fixed order)
Map(q) == [map |-> q]                   \* (key, value pairs)
Day(n) == [date |-> n]
Fp(n) == [fp |-> n]
Cls(c) == [class |-> c]
Obj(c, f) == [cls |-> c, f |-> f]

\* Fields that do not identify an instance
Skips(c) ==
  CASE c = "S" -> {"note"} [] c = "S2" -> {"note", "more"} [] c = "Graph" -> {"backend"} [] c \in {"Artifact", "Num"} -> {"producer_output"}
    [] c = "Prod" -> {"annotations"}
    [] c \in {"Int8", "Int64", "UInt8", "String", "Null", "Binary", "Boolean", "Date", "DateTime", "Time", "Timestamp", "Enum", "Geography",
              "List", "Set", "Collection", "Map", "Struct", "Float32"} -> {"description"}
    [] OTHER -> {}
RECURSIVE Id(_)
Id(v) ==
  IF "cls" \in DOMAIN v THEN [cls |-> v.cls, f |-> [n \in DOMAIN v.f \ Skips(v.cls) |-> Id(v.f[n])]]
  ELSE IF "tup" \in DOMAIN v THEN [tup |-> [n \in DOMAIN v.tup |-> Id(v.tup[n])]]
  ELSE IF "map" \in DOMAIN v THEN [map |-> [n \in DOMAIN v.map |-> <<v.map[n][1], Id(v.map[n][2])>>]]
  ELSE v

(* ---- synthetic classes: P(x, y="a"), Q(P), R(P, z=None), S(x, note skipped=0), S2(S, more skipped=0, w=0) ---- *)
(* ---- N(m: P, label="l"), O(o: N|None=None, p: tuple[P, ...]=()), F(f: map str->int, g: map str->P={}), T(t: tuple[int, ...], b=False) *)
(* ---- U(v: int|str|bool|None), L(kind: "r"|"w"="r", fl: float=0.0), V: no fields *)
Ps == {Obj("P", [x |-> I(x), y |-> Str(y)]) : x \in 0..1, y \in {"a", "b"}}
Qs == {Obj("Q", [x |-> I(x), y |-> Str(y)]) : x \in 0..1, y \in {"a", "b"}}
Rs == {Obj("R", [x |-> I(x), y |-> Str("a"), z |-> z]) : x \in 0..1, z \in {None, I(0), I(1)}}
Ss == {Obj("S", [x |-> I(x), note |-> I(n)]) : x \in 0..1, n \in 0..1}
S2s == {Obj("S2", [x |-> I(x), note |-> I(n), more |-> I(m), w |-> I(w)]) : x \in 0..1, n \in 0..1, m \in 0..1, w \in 0..1}
Px == {Obj(c, [x |-> I(x), y |-> Str("a")]) : c \in {"P", "Q"}, x \in 0..1} \cup {Obj("R", [x |-> I(0), y |-> Str("a"), z |-> z]) : z \in {None, I(1)}}
Ns == {Obj("N", [m |-> m, label |-> Str(l)]) : m \in Px, l \in {"l", "k"}}
Os == {Obj("O", [o |-> o, p |-> Tup(p)]) : o \in {None} \cup {n \in Ns : n.f.label = Str("l")},
                                           p \in {<<>>} \cup {<<a>> : a \in Px} \cup {<<a, b>> : a, b \in {q \in Px : q.f.x = I(0) \/ q.cls = "Q"}}}
Fs == {Obj("F", [f |-> Map(f), g |-> Map(g)]) : f \in {<<>>, << <<"a", I(1)>> >>, << <<"a", I(2)>> >>, << <<"b", I(1)>> >>, << <<"a", I(1)>>, <<"b", I(2)>> >>, << <<"a", I(2)>>, <<"b", I(1)>> >>},
                                                g \in {<<>>} \cup {<< <<"a", q>> >> : q \in Px}}
Ts == {Obj("T", [t |-> Tup(t), b |-> B(b)]) : t \in UNION {[1..n -> {I(0), I(1), I(-1), I(10)}] : n \in 0..2}, b \in BOOLEAN}
Us == {Obj("U", [v |-> v]) : v \in {None, I(0), I(1), Str(""), Str("0"), Str("1"), Str("None"), Str("null"), Str("a b"), Str("0.0"), Str("{}"), Str("\"")}}
Bs == {Obj("W", [v |-> B(b)]) : b \in BOOLEAN}
Ls == {Obj("L", [kind |-> Str(k), fl |-> Flt(x)]) : k \in {"r", "w"}, x \in {"0.0", "1.5", "-1.5", "1e+300"}}
Vs == {Obj("V", <<>>), Obj("V2", <<>>)}
Synthetic == Ps \cup Qs \cup Rs \cup Ss \cup S2s \cup Ns \cup Os \cup Fs \cup Ts \cup Us \cup Bs \cup Ls \cup Vs

(* ---- the classes of the system ---- *)
Ty(c, n) == Obj(c, [nullable |-> B(n), description |-> None])
TyD(c, n, d) == Obj(c, [nullable |-> B(n), description |-> d])
Int64 == Ty("Int64", FALSE)
Prims == {TyD(c, n, d) : c \in {"Int8", "Int64", "UInt8", "String", "Null", "Boolean", "Date", "Float32"}, n \in BOOLEAN, d \in {None, Str("d")}}
Few == {Int64, Ty("Int64", TRUE), Ty("String", FALSE), Ty("Int8", FALSE)}
With(c, f, n) == Obj(c, f @@ [nullable |-> B(n), description |-> None])
Times == {With(c, [precision |-> Str(p)], n) : c \in {"DateTime", "Time", "Timestamp"}, p \in {"second", "millisecond", "microsecond", "nanosecond"}, n \in BOOLEAN}
Bins == {With("Binary", [byte_size |-> b], n) : b \in {None, I(1), I(2)}, n \in BOOLEAN}
Geos == {With("Geography", [format |-> f, srid |-> s], FALSE) : f, s \in {None, Str("WKB"), Str("x")}}
Lists == {With(c, [element |-> e], n) : c \in {"List", "Set"}, e \in Few, n \in BOOLEAN}
Deeper == {With("List", [element |-> l], FALSE) : l \in {l \in Lists : l.f.nullable = B(FALSE)}}
Maps == {With("Map", [key |-> k, value |-> v], FALSE) : k, v \in Few}
Enums == {With("Enum", [type |-> Int64, items |-> SetOf(q), name |-> Str(n)], FALSE) : q \in {<<I(0)>>, <<I(0), I(1)>>, <<I(-1), I(1)>>, <<I(0), I(1), I(8)>>}, n \in {"anon", "e"}}
     \cup {With("Enum", [type |-> Ty("String", FALSE), items |-> SetOf(q), name |-> Str("anon")], FALSE) : q \in {<<Str("0")>>, <<Str("0"), Str("1")>>, <<Str("0,1")>>, <<Str("a"), Str("b"), Str("c"), Str("d")>>}}
Structs == {With("Struct", [fields |-> Map(f), name |-> Str(n)], FALSE) :
              f \in {<<>>} \cup {<< <<k, t>> >> : k \in {"a", "b"}, t \in Few} \cup {<< <<"a", t>>, <<"b", u>> >> : t, u \in Few}, n \in {"anon", "s"}}
AB == With("Struct", [fields |-> Map(<< <<"a", Int64>>, <<"b", Int64>> >>), name |-> Str("anon")], FALSE)
Orders == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}
Names(q) == Tup([n \in DOMAIN q |-> Str(q[n])])
Overlap(p, q) == \E n \in DOMAIN p, m \in DOMAIN q : p[n] = q[m]
Colls == {With("Collection", [element |-> AB, partition_by |-> Names(pq[1]), cluster_by |-> Names(pq[2]), name |-> Str(n)], FALSE) :
            pq \in {pq \in Orders \X Orders : ~Overlap(pq[1], pq[2])}, n \in {"anon", "c"}}
Types == Prims \cup Times \cup Bins \cup Geos \cup Lists \cup Deeper \cup Maps \cup Enums \cup Structs \cup Colls
Formats == {Obj(c, [extension |-> Str(e)]) : c \in {"JSON", "Pickle"}, e \in {"", ".json", ".x"}}
KeyFields == {Obj(c, [value |-> I(n)]) : c \in {"Int8Field", "Int16Field", "Int32Field", "Int64Field"}, n \in {0, 1, -1}}
             \cup {Obj("DateField", [value |-> Day(n)]) : n \in 1..3} \cup {Obj("NullField", [value |-> None])}
Local(p) == Obj("LocalFile", [path |-> Str(p)])
Storages == {Local(p) : p \in {"x", "y"}} \cup {Obj("GCSFile", [bucket |-> Str(b), path |-> Str(p)]) : b, p \in {"x", "y"}}
            \cup {Obj("StringLiteral", [id |-> Str(i), value |-> v]) : i \in {"x", "y"}, v \in {None, Str("x"), Str("null"), Str("")}}
PKeys == {Map(<<>>)} \cup {Map(<< <<"i", k>> >>) : k \in {k \in KeyFields : k.cls \in {"Int8Field", "Int64Field"}}} \cup {Map(<< <<"j", Obj("NullField", [value |-> None])>> >>)}
Parts == {Obj("LocalFilePartition", [path |-> Str(p), storage |-> s, input_fingerprint |-> fp, partition_key |-> k]) :
            p \in {"x", "y"}, s \in {Local("x"), Local("y")}, fp \in {None, Fp(1), Fp(-1)}, k \in PKeys}
      \cup {Obj("StringLiteralPartition", [id |-> Str("x"), value |-> v, storage |-> Obj("StringLiteral", [id |-> Str("x"), value |-> None]), input_fingerprint |-> fp, partition_key |-> Map(<<>>)]) :
            v \in {None, Str("1")}, fp \in {None, Fp(1)}}
ASnap == {Obj("StoragePartitionSnapshot", [content_fingerprint |-> Fp(n), storage_partition |-> p]) : n \in {1, 2}, p \in {p \in Parts : p.cls = "LocalFilePartition" /\ p.f.partition_key = Map(<<>>)}}
Versions == {Obj(c, [value |-> Str(s)]) : c \in {"VersionString"}, s \in {"1", "2"}} \cup {Obj("GitCommit", [sha |-> Str(s)]) : s \in {"1", "2"}}
Notes == {Obj("Note", [text |-> Str(t)]) : t \in {"n", "m"}}
Stats == {Obj("Stat", [text |-> Str(t)]) : t \in {"n", "m"}}
Art(c, t, f, s, a, st) == Obj(c, [type |-> t, format |-> f, storage |-> s, annotations |-> Tup(a), statistics |-> Tup(st), producer_output |-> None])
AJson == Obj("JSON", [extension |-> Str(".json")])
APickle == Obj("Pickle", [extension |-> Str(".pickle")])
Arts == {Art(c, t, f, s, a, <<>>) : c \in {"Artifact", "Num"}, t \in {Int64, AB}, f \in {AJson, APickle}, s \in {Local("x"), Obj("StringLiteral", [id |-> Str("x"), value |-> None])},
                               a \in {<<>>} \cup {<<n>> : n \in Notes}}
        \cup {Art("Artifact", Int64, AJson, Local("x"), a, <<s>>) : a \in {<<m, n>> : m, n \in Notes}, s \in Stats}
AnArt(s) == Art("Num", Int64, AJson, Local(s), <<>>, <<>>)
Prods == {Obj(c, [a |-> AnArt(s), annotations |-> Tup(n), version |-> v]) : c \in {"Prod"}, s \in {"x", "y"}, n \in {<<>>, <<Obj("Note", [text |-> Str("n")])>>}, v \in Versions}
Outs == {Obj("ProducerOutput", [producer |-> p, position |-> I(n)]) : p \in {p \in Prods : p.f.annotations = Tup(<<>>)}, n \in 0..1}
Made == {[AnArt("x") EXCEPT !.f.producer_output = o] : o \in Outs}
Views == {Obj(c, [mode |-> Str(m), artifact_class |-> Cls(at[1]), type |-> at[2]]) : c \in {"Int", "Str"}, m \in {"READ", "WRITE", "READWRITE"},
             at \in {<<"Artifact", Int64>>, <<"Artifact", Ty("String", FALSE)>>, <<"Num", Int64>>}}
System == Types \cup Formats \cup KeyFields \cup Storages \cup Parts \cup ASnap \cup Versions \cup Notes \cup Stats \cup Arts \cup Prods \cup Outs \cup Made \cup Views

CONSTANT Which
VARIABLE c
Values == CASE Which = "synthetic" -> Synthetic [] Which = "system" -> System
ValueInit == c \in Values
ValueEmit == PrintT("@C" \o ToJson([c |-> c, want |-> Id(c)]))
ASSUME \A v \in Synthetic : Id(v) = v <=> Skips(v.cls) = {} \/ v.cls \notin {"S", "S2"}

(* ---- what is accepted ---- *)
\* kinds of values offered; which hints take them
Offers == {"int", "true", "str", "float", "none", "list", "tuple_int", "tuple_str", "tuple_p", "tuple_list", "dict_int", "dict_str", "set", "P", "Q", "S", "N", "type", "fp", "bytes", "object", "r", "big"}
Takes(h) ==
  CASE h = "int" -> {"int", "fp", "big"} [] h = "str" -> {"str", "r"} [] h = "bool" -> {"true"} [] h = "int|none" -> {"int", "none", "fp", "big"}
    [] h = "float" -> {"float"} [] h = "literal" -> {"r"} [] h = "P" -> {"P", "Q"} [] h = "P|none" -> {"P", "Q", "none"}
    [] h = "tuple[int]" -> {"tuple_int"} [] h = "tuple[P]" -> {"tuple_p"} [] h = "map[int]" -> {"dict_int"} [] h = "Fingerprint" -> {"fp", "int"}
    [] h = "any" -> Offers \ {"list", "dict_int", "dict_str", "set", "tuple_list"}
\* (whether numbers stand for each other is left to the library)
Unsaid(h, o) == (h = "float" /\ o \in {"int", "fp", "big", "true"}) \/ (h \in {"Fingerprint", "int", "int|none"} /\ o = "fp")
Hints == {"int", "str", "bool", "int|none", "float", "literal", "P", "P|none", "tuple[int]", "tuple[P]", "map[int]", "Fingerprint", "any"}
OfferInit == c \in {[hint |-> h, offer |-> o, how |-> w] : h \in Hints, o \in Offers, w \in {"given", "default", "nested", "subclass"}}
OfferEmit == Unsaid(c.hint, c.offer) \/ (c.offer = "type" /\ c.how = "default") \/ PrintT("@C" \o ToJson([c |-> c, want |-> c.offer \in Takes(c.hint)]))

(* ---- a history of two models ---- *)
HTerms == {Obj("P", [x |-> I(x), y |-> Str("a")]) : x \in 0..1} \cup {Obj("S", [x |-> I(0), note |-> I(n)]) : n \in 0..1}
          \cup {Obj("N", [m |-> Obj("P", [x |-> I(x), y |-> Str("a")]), label |-> Str("l")]) : x \in 0..1}
Gone == [gone |-> 0]
\* used: identity was looked at
Slot == [v : HTerms \cup {Gone}, used : BOOLEAN]
HInit == c = [a |-> [v |-> Gone, used |-> FALSE], b |-> [v |-> Gone, used |-> FALSE]]
Edge(act, t) == PrintT("@E" \o ToJson([s |-> c, a |-> act, t |-> t])) /\ c' = t
There == {s \in {"a", "b"} : c[s].v # Gone}
HNew == \E s \in {"a", "b"}, v \in HTerms : Edge([op |-> "new", to |-> s, v |-> v], [c EXCEPT ![s] = [v |-> v, used |-> FALSE]])
Obs == [eq |-> c.a.v = c.b.v, hash |-> c.a.v = c.b.v, fp |-> IF c.a.v # Gone /\ c.b.v # Gone THEN Id(c.a.v) = Id(c.b.v) ELSE c.a.v = c.b.v]
HUse == \E s \in There : Edge([op |-> "use", of |-> s], [c EXCEPT ![s].used = TRUE])
HCompare == There = {"a", "b"} /\ Edge([op |-> "compare", res |-> Obs], [c EXCEPT !.a.used = TRUE, !.b.used = TRUE])
HCopy == \E s \in There, t \in {"a", "b"}, how \in {"copy", "deep", "pickle", "model", "modeldeep"} : Edge([op |-> "copy", of |-> s, to |-> t, how |-> how], [c EXCEPT ![t] = c[s]])
HChange == \E s \in There, t \in {"a", "b"}, w \in HTerms, deep \in BOOLEAN :
  /\ w.cls = c[s].v.cls
  /\ Edge([op |-> "change", of |-> s, to |-> t, deep |-> deep, by |-> [n \in {n \in DOMAIN w.f : w.f[n] # c[s].v.f[n]} |-> w.f[n]]],
          [c EXCEPT ![t] = [v |-> w, used |-> w = c[s].v /\ c[s].used]])
HRefuse == \E s \in There, what \in {"set", "delete", "new_field", "setprivate_none", "inner", "unhashable"} :
             (what = "inner" => c[s].v.cls = "N") /\ Edge([op |-> "refuse", of |-> s, what |-> what, res |-> "refused"], c)
HNext == HNew \/ HUse \/ HCompare \/ HCopy \/ HChange \/ HRefuse
HLaws == c.a.v # Gone /\ c.b.v # Gone /\ c.a.v = c.b.v => Id(c.a.v) = Id(c.b.v)

Next == FALSE /\ c' = c
=============================================================================
