------------------------------- MODULE Templates -------------------------------
(* Storage templates: what each placeholder stands for, where data ends up, and *)
(* which data can be found again. Locations are strings.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

RECURSIVE Join(_, _)
Join(sep, q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(sep, Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

(* ---- partition keys: field -> number of a value; components of the values ---- *)
Num(n) == CASE n = 1 -> [value |-> "5", pad |-> "005", hex |-> "0x5", odd |-> [value |-> "05", hex |-> "0X5"]]
            [] n = 2 -> [value |-> "-3", pad |-> "-03", hex |-> "-0x3", odd |-> [value |-> "-03", hex |-> "-3"]]
            [] n = 3 -> [value |-> "0", pad |-> "000", hex |-> "0x0", odd |-> [value |-> "+0", hex |-> "00"]]
            [] n = 4 -> [value |-> "120", pad |-> "120", hex |-> "0x78", odd |-> [value |-> "1_2_0", hex |-> "0x078"]]
Day(n) == CASE n = 1 -> [Y |-> "2024", m |-> "1", d |-> "2", mm |-> "01", dd |-> "02", iso |-> "2024-01-02", odd |-> "20240102"]
            [] n = 2 -> [Y |-> "2024", m |-> "11", d |-> "12", mm |-> "11", dd |-> "12", iso |-> "2024-11-12", odd |-> "20241112"]
            [] n = 3 -> [Y |-> "2023", m |-> "1", d |-> "10", mm |-> "01", dd |-> "10", iso |-> "2023-01-10", odd |-> "20230110"]
            [] n = 4 -> [Y |-> "987", m |-> "12", d |-> "1", mm |-> "12", dd |-> "01", iso |-> "0987-12-01", odd |-> "09871201"]
\* fields i, j are integers; d is a date; n is null
Component(f, v, c) ==
  CASE f \in {"i", "j"} -> (CASE c = "value" -> Num(v).value [] c = "value:03" -> Num(v).pad [] c = "hex" -> Num(v).hex)
    [] f = "d" -> (CASE c \in {"Y", "Y[2024]"} -> Day(v).Y [] c = "m" -> Day(v).m [] c = "d" -> Day(v).d [] c \in {"m:02", "m[01]:02"} -> Day(v).mm
                     [] c \in {"d:02", "d[02]:02"} -> Day(v).dd [] c \in {"iso", "value"} -> Day(v).iso)
    [] f = "n" -> "None"
\* the same value written in another way (which is not where it is stored)
Odd(f, v, c) ==
  CASE f \in {"i", "j"} /\ c = "value" -> {Num(v).odd.value}
    [] f \in {"i", "j"} /\ c = "hex" -> {Num(v).odd.hex}
    [] f = "d" /\ c \in {"iso", "value"} -> {Day(v).odd}
    [] OTHER -> {}
Hard(f, c) == CASE c = "Y[2024]" -> "2024" [] c = "m[01]:02" -> "01" [] c = "d[02]:02" -> "02" [] OTHER -> ""
Default(f) == IF f = "d" THEN << <<"d", "Y">>, <<"d", "m:02">>, <<"d", "d:02">> >> ELSE << <<f, "value">> >>
BareName(c) == CASE c \in {"m:02"} -> "m" [] c = "d:02" -> "d" [] OTHER -> c

(* ---- tokens of a template ---- *)
L(s) == [t |-> "lit", s |-> s]
P(s) == [t |-> "ph", s |-> s]
K(f, c) == [t |-> "key", s |-> f, c |-> c]
Fp == P("input_fingerprint")

\* What a placeholder becomes: a sequence of segments, each a sequence of tokens
Spec(fields) == Flat([n \in DOMAIN fields |->
  [x \in DOMAIN Default(fields[n]) |-> LET y == Default(fields[n])[x] IN <<L(y[1] \o "_" \o BareName(y[2]) \o "="), K(y[1], y[2])>>]])
Tags(tags) == [n \in DOMAIN tags |-> <<L(tags[n][1] \o "=" \o tags[n][2])>>]
Lits(q) == [n \in DOMAIN q |-> <<L(q[n])>>]
Known == {"graph_name", "path_tags", "names", "name", "extension", "partition_key_spec", "input_fingerprint"}
\* info: graph, tags, names, ext, fields, produced
Value(p, i) ==
  CASE p = "graph_name" -> Lits(<<i.graph>>) [] p = "path_tags" -> Tags(i.tags)
    [] p = "names" -> Lits(i.names) [] p = "name" -> Lits(<<i.names[Len(i.names)]>>)
    [] p = "extension" -> IF i.ext = "" THEN <<>> ELSE Lits(<<i.ext>>)
    [] p = "partition_key_spec" -> Spec(i.fields)
    [] p = "input_fingerprint" -> IF i.produced THEN << <<Fp>> >> ELSE <<>>
    [] OTHER -> << <<P(p)>> >>
\* A segment made of one placeholder becomes its segments; in others they are joined to one.
ResolveSeg(seg, i) ==
  IF Len(seg) = 1 /\ seg[1].t = "ph" THEN Value(seg[1].s, i)
  ELSE LET all == Flat([n \in DOMAIN seg |-> IF seg[n].t = "ph" THEN Flat(Value(seg[n].s, i)) ELSE <<seg[n]>>])
       IN IF all = <<>> THEN <<>> ELSE <<all>>
Resolve(tpl, i) == Flat([n \in DOMAIN tpl |-> ResolveSeg(tpl[n], i)])

Show(tok) == CASE tok.t = "lit" -> tok.s [] tok.t = "ph" -> "{" \o tok.s \o "}" [] tok.t = "key" -> "{" \o tok.s \o "." \o tok.c \o "}"
At(tok, k, fp) == CASE tok.t = "lit" -> tok.s [] tok.t = "ph" -> (IF tok = Fp THEN fp ELSE Show(tok)) [] tok.t = "key" -> Component(tok.s, k[tok.s], tok.c)
Text(tpl) == Join("/", [n \in DOMAIN tpl |-> Join("", [x \in DOMAIN tpl[n] |-> Show(tpl[n][x])])])
Segments(tpl, k, fp) == [n \in DOMAIN tpl |-> Join("", [x \in DOMAIN tpl[n] |-> At(tpl[n][x], k, fp)])]
Location(tpl, k, fp) == Join("/", Segments(tpl, k, fp))
Has(tpl, p) == \E n \in DOMAIN tpl : \E x \in DOMAIN tpl[n] : tpl[n][x] = P(p)
Locals(tpl) == \A n \in DOMAIN tpl : \A x \in DOMAIN tpl[n] : tpl[n][x].t # "ph"

(* ---- C13: resolving ---- *)
File == <<P("name"), P("extension")>>
Segs == {<<P("graph_name")>>, <<P("path_tags")>>, <<P("names")>>, File, <<P("partition_key_spec")>>, <<Fp>>, <<P("other")>>,
         <<L("v-"), P("graph_name"), L(".x")>>, <<P("name"), L("_"), P("graph_name")>>}
Some3 == {<<a, b>> : a, b \in Segs} \cup {<<a, b, c>> : a, b, c \in Segs} \cup {<<a>> : a \in Segs}
DefaultTpl == << <<P("graph_name")>>, <<P("path_tags")>>, <<P("names")>>, <<P("partition_key_spec")>>, <<Fp>>, File>>
\* (the one of files in GCS)
DefaultGCS == << <<P("graph_name")>>, <<P("path_tags")>>, <<P("names")>>, <<P("partition_key_spec")>>, <<Fp>>, <<P("name"), L("."), P("extension")>> >>
Tpls == Some3 \cup {DefaultTpl}
NoTags == <<>>
Infos == {[graph |-> "g1", tags |-> t, names |-> n, ext |-> e, fields |-> f, produced |-> p] :
            t \in {NoTags, << <<"env", "prod">> >>, << <<"a", "1">>, <<"b", "2">> >>},
            n \in {<<"x">>, <<"ns", "y">>, <<"x", "x", "x">>}, e \in {"", ".json"},
            f \in {<<>>, <<"i">>, <<"d", "i">>}, p \in BOOLEAN}
FewInfos == {i \in Infos : i.names # <<"x", "x", "x">> /\ Len(i.tags) # 1 /\ (i.fields = <<>> => i.ext # "")}
KeysOf(fields) == IF fields = <<>> THEN {<<>>} ELSE [ToSet(fields) -> 1..2]
\* A default of any kind under which all data is kept apart
Contents == {[graph |-> g, tags |-> t, names |-> n, ext |-> ".json", fields |-> f, produced |-> p] :
               g \in {"g1", "g2"}, t \in {NoTags, << <<"a", "1">> >>, << <<"a", "2">> >>, << <<"b", "1">> >>, << <<"a", "1">>, <<"b", "1">> >>},
               n \in {<<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">>, <<"x", "x">>}, f \in {<<>>, <<"i">>, <<"d">>, <<"i", "j">>, <<"d", "i">>}, p \in BOOLEAN}
Data == UNION {{[i |-> i, k |-> k, fp |-> fp] : k \in KeysOf(i.fields), fp \in IF i.produced THEN {"11", "12"} ELSE {""}} : i \in Contents}
Identity(d) == [graph |-> d.i.graph, tags |-> d.i.tags, names |-> d.i.names, fields |-> IF d.i.fields = <<>> THEN <<>> ELSE d.k, fp |-> d.fp]

CONSTANT Deep
VARIABLE c
ResolveInit == \E tpl \in Tpls : \E i \in (IF Len(tpl) < 3 \/ tpl = DefaultTpl THEN Infos ELSE FewInfos) : c = [tpl |-> tpl, i |-> i]
\* A raw artifact's location, or nothing at all where that is not one
Produced == c.i.produced
Fails == Produced /\ ~Has(c.tpl, "input_fingerprint")
\* (an empty extension takes the separator after it along, which would join two segments)
Joins == c.i.ext = "" /\ \E n \in 1..Len(c.tpl) - 1 : c.tpl[n] = File
Nowhere == Joins \/ Resolve(c.tpl, c.i) = <<>>
ResolveEmit == ~Nowhere => PrintT("@C" \o ToJson(
  [c |-> [tpl |-> Text(c.tpl), i |-> c.i],
   want |-> [path |-> Text(Resolve(c.tpl, c.i)), assigned |-> ~Fails]]))
ResolveLaws ==
  LET r == Resolve(c.tpl, c.i) IN
  /\ \A p \in Known : (p # "input_fingerprint" \/ ~Produced) => ~Has(r, p)
  /\ Has(c.tpl, "other") = Has(r, "other")
  /\ Resolve(r, c.i) = r                       \* nothing more to say
  /\ \A n \in DOMAIN r : r[n] # <<>>
DataInit == c \in Data
DataLaws == /\ Locals(Resolve(DefaultTpl, c.i)) \/ c.i.produced
            /\ LET here == Location(Resolve(DefaultTpl, c.i), c.k, c.fp) IN
               \A n \in {<<"x">>, <<"x", "y">>}, t \in {NoTags, << <<"a", "1">> >>} :
                 LET o == [c EXCEPT !.i.names = n, !.i.tags = t] IN
                 Location(Resolve(DefaultTpl, o.i), o.k, o.fp) = here => Identity(o) = Identity(c)
DataEmit == PrintT("@C" \o ToJson([c |-> [i |-> c.i, k |-> c.k, fp |-> c.fp],
  want |-> [id |-> Identity(c), path |-> Location(Resolve(DefaultTpl, c.i), c.k, c.fp), gcs |-> Location(Resolve(DefaultGCS, c.i), c.k, c.fp)]]))
ASSUME Cardinality({Location(Resolve(DefaultTpl, d.i), d.k, d.fp) : d \in Data}) = Cardinality({Identity(d) : d \in Data})

(* ---- C14: finding again ---- *)
IntTpls == {<< <<K("i", "value")>>, <<L("f.json")>> >>, << <<L("i_"), K("i", "value"), L(".json")>> >>, << <<K("i", "hex")>>, <<L("f.json")>> >>,
            << <<L("i"), K("i", "value:03"), L("x")>>, <<L("f.json")>> >>, << <<L("a[1]*?")>>, <<L("i+("), K("i", "value"), L(").json")>> >>}
TwoTpls == {<< <<K("i", "value")>>, <<K("j", "value")>>, <<L("f.json")>> >>, << <<K("j", "hex"), L("_"), K("i", "value"), L(".json")>> >>,
            << <<L("x")>>, <<L("i="), K("i", "value:03")>>, <<L("j="), K("j", "hex")>>, <<L("f")>> >>}
DayTpls == {<< <<K("d", "Y")>>, <<K("d", "m:02")>>, <<K("d", "d:02")>>, <<L("f.json")>> >>, << <<K("d", "Y"), L("-"), K("d", "m"), L("-"), K("d", "d")>>, <<L("f")>> >>,
            << <<L("day-"), K("d", "iso"), L(".json")>> >>, << <<K("d", "value")>>, <<L("f.json")>> >>,
            << <<L("y="), K("d", "Y[2024]")>>, <<K("d", "m:02")>>, <<K("d", "d:02")>>, <<L("f.json")>> >>,
            << <<K("d", "Y")>>, <<L("m"), K("d", "m[01]:02"), L("d"), K("d", "d:02"), L(".json")>> >>,
            << <<K("d", "Y[2024]")>>, <<K("d", "m[01]:02")>>, <<K("d", "d[02]:02")>>, <<L("f.json")>> >>,
            << <<K("d", "Y")>>, <<K("d", "Y"), L("-"), K("d", "m:02"), L("-"), K("d", "d:02"), L(".json")>> >>}
MixTpls == {<< <<K("d", "iso")>>, <<L("i"), K("i", "value"), L(".json")>> >>, << <<K("i", "value")>>, <<K("d", "Y")>>, <<K("d", "m:02"), L("_"), K("d", "d:02")>>, <<L("f")>> >>,
            << <<K("d", "Y[2024]")>>, <<K("d", "m:02")>>, <<K("d", "d:02")>>, <<L("x"), K("i", "hex"), L(".json")>> >>}
NullTpls == {<< <<L("n="), K("n", "value")>>, <<K("i", "value"), L(".json")>> >>}
PlainTpls == {<< <<L("f.json")>> >>, << <<L("a[b]")>>, <<L("f*.json")>> >>}
\* Where the input fingerprint goes
WithFp(t) == {t \o << <<Fp, L(".json")>> >>, << <<Fp>> >> \o t, <<t[1]>> \o << <<L("in-"), Fp>> >> \o Tail(t), << <<L("fp="), Fp, L("="), t[1][1]>> \o Tail(t[1])>> \o Tail(t)}
Scheme(fields, tpls) == {[fields |-> fields, tpl |-> t, fp |-> FALSE] : t \in tpls} \cup UNION {{[fields |-> fields, tpl |-> u, fp |-> TRUE] : u \in WithFp(t)} : t \in tpls}
Schemes == Scheme(<<"i">>, IntTpls) \cup Scheme(<<"i", "j">>, TwoTpls) \cup Scheme(<<"d">>, DayTpls) \cup Scheme(<<"d", "i">>, MixTpls)
           \cup Scheme(<<"n", "i">>, NullTpls) \cup Scheme(<<>>, PlainTpls)
           \cup Scheme(<<"i">>, {Spec(<<"i">>) \o << <<L("f.json")>> >>}) \cup Scheme(<<"d", "i">>, {Spec(<<"d", "i">>) \o << <<L("f.json")>> >>})
Pool(fields) ==
  CASE fields = <<>> -> {<<>>}
    [] fields = <<"i">> -> {[i |-> n] : n \in 1..4}
    [] fields = <<"i", "j">> -> {[i |-> 1, j |-> 2], [i |-> 2, j |-> 1], [i |-> 1, j |-> 1], [i |-> 4, j |-> 3]}
    [] fields = <<"d">> -> {[d |-> n] : n \in 1..4}
    [] fields = <<"d", "i">> -> {[d |-> 1, i |-> 1], [d |-> 1, i |-> 2], [d |-> 3, i |-> 1], [d |-> 4, i |-> 4]}
    [] fields = <<"n", "i">> -> {[n |-> 1, i |-> n] : n \in 1..3}
Fps == {"11", "12"}
\* Which of them are there; each with one or several fingerprints
Written(s) ==
  LET K4 == Pool(s.fields)
      k1 == CHOOSE k \in K4 : TRUE
      Ws == IF Deep THEN SUBSET K4 ELSE {{}, K4, {k1}, K4 \ {k1}}
      Vs == IF Deep THEN {{}, K4} \cup {{k} : k \in K4} ELSE {{}, K4, {k1}} IN
  IF ~s.fp THEN {{[k |-> k, fp |-> ""] : k \in W} : W \in SUBSET K4}
  ELSE {{[k |-> k, fp |-> "11"] : k \in W} \cup {[k |-> k, fp |-> "12"] : k \in V} : W \in Ws, V \in Vs}
\* What is asked for: fingerprints by key
Asked(s) ==
  LET K4 == Pool(s.fields)
      k1 == CHOOSE k \in K4 : TRUE IN
  IF ~s.fp THEN {{}} ELSE {{[k |-> k, fp |-> "11"] : k \in K4}, {[k |-> k, fp |-> IF k = k1 THEN "12" ELSE "11"] : k \in K4}}
                         \cup {{[k |-> k, fp |-> "12"]} : k \in IF Deep THEN K4 ELSE {k1}}
Fits(tpl, k) == \A n \in DOMAIN tpl : \A x \in DOMAIN tpl[n] :
  LET tok == tpl[n][x] IN (tok.t = "key" /\ Hard(tok.s, tok.c) # "") => Hard(tok.s, tok.c) = Component(tok.s, k[tok.s], tok.c)
\* Files that are none of ours
Noise(s, w) ==
  LET g == Segments(s.tpl, w.k, w.fp)
      front == SubSeq(g, 1, Len(g) - 1)
      lastseg == Last(s.tpl)
      odd == UNION {UNION {{[g EXCEPT ![n] = Join("", [y \in DOMAIN s.tpl[n] |-> IF y = x THEN o ELSE At(s.tpl[n][y], w.k, w.fp)])] :
                        o \in (IF s.tpl[n][x].t = "key" THEN Odd(s.tpl[n][x].s, w.k[s.tpl[n][x].s], s.tpl[n][x].c) ELSE IF s.tpl[n][x] = Fp THEN {"0" \o w.fp} ELSE {})}
                       : x \in DOMAIN s.tpl[n]} : n \in DOMAIN g}
  IN {Join("/", front \o <<"sub", Last(g)>>)}
     \cup (IF lastseg[Len(lastseg)].t = "lit" THEN {Join("/", front \o <<Last(g) \o "~">>), Join("/", front \o <<Last(g) \o ".d", "f.json">>)} ELSE {})
     \cup (IF lastseg[1].t = "lit" THEN {Join("/", front \o <<"z" \o Last(g)>>), Join("/", front \o <<"." \o Last(g)>>)} ELSE {})
     \cup (IF Len(g) > 1 THEN {Join("/", Tail(g)), Join("/", <<"up">> \o g)} ELSE {})
     \cup {Join("/", o) : o \in odd}
     \cup (IF s.tpl[1] = <<L("a[1]*?")>> THEN {Join("/", <<"a1xx">> \o Tail(g)), Join("/", <<"a1*?">> \o Tail(g))} ELSE {})
FindInit == \E s \in Schemes : \E W \in Written(s), ask \in Asked(s), noisy \in {0, 1} : c = [s |-> s, W |-> W, ask |-> ask, noisy |-> noisy]
Found == {w \in c.W : Fits(c.s.tpl, w.k) /\ (c.s.fp => w \in c.ask)}
Place(w) == Location(c.s.tpl, w.k, w.fp)
FindLaws == \A w, v \in c.W : Place(w) = Place(v) => w = v
FindEmit == PrintT("@C" \o ToJson([c |-> [tpl |-> Text(c.s.tpl), fields |-> c.s.fields, 
                                          files |-> {[k |-> w.k, fp |-> w.fp, at |-> Place(w)] : w \in c.W},
                                          noise |-> IF c.noisy = 0 THEN {} ELSE UNION {Noise(c.s, w) : w \in c.W} \ {Place(w) : w \in c.W}, ask |-> c.ask],
                                   want |-> {[k |-> w.k, fp |-> w.fp, at |-> Place(w)] : w \in Found}]))
Next == FALSE /\ c' = c
=============================================================================
