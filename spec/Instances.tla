------------------------------- MODULE Instances -------------------------------
(* Producers put to use: the artifacts they accept as inputs and as outputs, and *)
(* what becomes of those.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Which, Size
VARIABLE c
V == INSTANCE Views WITH Which <- "artifacts", Deeper <- TRUE
None == "-"

(* ---- one artifact: fits what is declared, in all its parts ---- *)
Types == {"Int64", "Int64?", "String", "Null", "Float64", "List(Int64)"}
Arts == {a \in [class : {"Artifact", "Plain", "Sub", "AInt"}, type : Types, format : {"JSON", "JSONSub", "Pickle", "Other"}, storage : {"Local", "LocalSub", "Literal", "GCS", "Store"}] : a.class = "AInt" => a.type = "Int64"}
Decls == {d \in [view : {"Int", "List", "Null", "Own", "Inst"}, class : {"Artifact", "Plain", "Sub", "AInt"}, type : Types] : (d.class = "AInt" => d.type = "Int64") /\ V!Repr(d.view, d.type) # None}
Fits(d, a, mode) == V!IsA(a.class, d.class) /\ a.type = d.type /\ IF mode = "READ" THEN V!CanRead(d.view, a.type, a.format, a.storage) ELSE V!CanWrite(d.view, a.type, a.format, a.storage)
\* role: built from, only mapped, both, or an output
One == [decl : Decls, art : Arts, role : {"build", "map", "both", "out"}]
WantOne(x) == [ok |-> CASE x.role = "map" -> V!IsA(x.art.class, x.decl.class) [] x.role = "out" -> Fits(x.decl, x.art, "WRITE") [] OTHER -> Fits(x.decl, x.art, "READ")]

(* ---- several outputs, some of them produced already ---- *)
D(v, k, t) == [view |-> v, class |-> k, type |-> t]
Declared == {D("Int", "Plain", "Int64"), D("Int", "AInt", "Int64"), D("Null", "Artifact", "Null"), D("Inst", "Artifact", "Float64")}
A(k, t, f, s) == [class |-> k, type |-> t, format |-> f, storage |-> s]
Stores == {<<"JSON", "Local">>, <<"Pickle", "Local">>, <<"Pickle", "Literal">>}
Free == {[kind |-> "artifact", origin |-> "none", a |-> A(kt[1], kt[2], fs[1], fs[2])] : kt \in ({"Plain", "Sub"} \X {"Int64", "Null", "Float64"}) \cup {<<"AInt", "Int64">>}, fs \in Stores}
Made == {[kind |-> "artifact", origin |-> o, a |-> a] : o \in {"another", "its own"}, a \in {A("Plain", "Int64", "JSON", "Local"), A("AInt", "Int64", "JSON", "Local"), A("Plain", "Float64", "Pickle", "Local")}}
Other == {[kind |-> k, origin |-> "none", a |-> A("Plain", "Int64", "JSON", "Local")] : k \in {"class", "value", "none", "producer", "string"}}
Given == Free \cup Made \cup Other
Few == {g \in Free : g.a.class # "Sub" /\ g.a.storage = "Local" /\ (g.a.format = "JSON") = (g.a.type # "Float64")} \cup {g \in Made : g.a.class = "AInt"}
\* twice: whether the same artifact is given for the first two
Outs == UNION {[decls : [1..n -> Declared], given : [1..n -> IF n = 3 THEN Few ELSE Given], twice : {FALSE}] : n \in 1..Size}
        \cup UNION {[decls : [1..n -> Declared], given : [1..m -> Few], twice : {FALSE}] : n \in 1..2, m \in 0..3}
        \cup {x \in [decls : [1..2 -> Declared], given : [1..2 -> Few], twice : {TRUE}] : x.given[1] = x.given[2]}
DefaultFor(d) == [kind |-> "artifact", origin |-> "none", a |-> A(d.class, d.type, "JSON", "Literal")]
WantOuts(x) ==
  LET gs == IF x.given = <<>> THEN [i \in DOMAIN x.decls |-> DefaultFor(x.decls[i])] ELSE x.given
      ok == Len(gs) = Len(x.decls) /\ \A i \in DOMAIN gs : gs[i].kind = "artifact" /\ gs[i].origin = "none" /\ Fits(x.decls[i], gs[i].a, "WRITE")
  IN IF ok THEN [ok |-> TRUE, outs |-> [i \in DOMAIN gs |-> gs[i].a]] ELSE [ok |-> FALSE]

(* ---- arguments that are not all there, or not artifacts ---- *)
ArgKinds == {"missing", "fits", "fits too", "misfit", "none", "value", "class", "producer", "produced"}
Args == [x : ArgKinds, y : ArgKinds, extra : {"", "unknown", "annotations", "version", "bad version", "bad annotations"}]
WantArgs(g) == [ok |-> {g.x, g.y} \subseteq {"fits", "fits too", "produced"} /\ g.extra \in {"", "annotations", "version"}]

(* ---- histories: a pool of artifacts, and producers made from them ---- *)
\* K1: x: Plain -> Plain;  K2: x: Plain, y: AInt -> AInt, Plain
Kinds == [K1 |-> [ins |-> <<"Plain">>, outs |-> <<"Plain">>], K2 |-> [ins |-> <<"Plain", "AInt">>, outs |-> <<"AInt", "Plain">>]]
VARIABLES arts, prods, act
vars == <<arts, prods, act>>
State(as, ps) == [arts |-> as, prods |-> ps]
HInit == /\ c = None /\ act = [op |-> "init"]
         /\ arts = <<[class |-> "Plain", from |-> 0, at |-> 0], [class |-> "AInt", from |-> 0, at |-> 0]>> /\ prods = <<>>
Make(k, ins) == LET ok == \A i \in DOMAIN ins : arts[ins[i]].class = Kinds[k].ins[i] IN
  /\ Len(prods) < 2
  /\ act' = [op |-> "make", kind |-> k, ins |-> ins, res |-> [ok |-> ok]]
  /\ prods' = IF ok THEN Append(prods, [kind |-> k, ins |-> ins]) ELSE prods
  /\ UNCHANGED <<arts, c>>
\* how: given these artifacts, or with none: asked for, iterated over, or cast to an artifact
Out(p, given, how) == LET k == Kinds[prods[p].kind]
                          ok == CASE how = "given" -> Len(given) = Len(k.outs) /\ \A i \in DOMAIN given : arts[given[i]].class = k.outs[i] /\ arts[given[i]].from = 0
                                  [] how = "cast" -> Len(k.outs) = 1 [] OTHER -> TRUE IN
  /\ Len(arts) + Len(k.outs) <= Size
  /\ act' = [op |-> "out", p |-> p, given |-> given, how |-> how, res |-> [ok |-> ok]]
  /\ arts' = IF ok THEN arts \o [i \in DOMAIN k.outs |-> [class |-> k.outs[i], from |-> p, at |-> i - 1]] ELSE arts
  /\ UNCHANGED <<prods, c>>
HNext == \/ \E k \in DOMAIN Kinds : \E ins \in [DOMAIN Kinds[k].ins -> DOMAIN arts] : Make(k, ins)
         \/ \E p \in DOMAIN prods : \/ \E n \in 1..2 : \E given \in [1..n -> DOMAIN arts] : Out(p, given, "given")
                                    \/ \E how \in {"asked", "iterated", "cast"} : Out(p, <<>>, how)
HLaws == /\ \A i \in DOMAIN arts : arts[i].from \in 0..Len(prods)
         /\ \A i \in DOMAIN arts : arts[i].from # 0 => arts[i].class = Kinds[prods[arts[i].from].kind].outs[arts[i].at + 1]
HEdge == act'.op = "init" \/ PrintT("@E" \o ToJson([s |-> State(arts, prods), a |-> act', t |-> State(arts', prods')]))
HView == <<arts, prods>>

Cases == CASE Which = "one" -> One [] Which = "outs" -> Outs [] Which = "args" -> Args
Want(x) == CASE Which = "one" -> WantOne(x) [] Which = "outs" -> WantOuts(x) [] Which = "args" -> WantArgs(x)
Keep == arts = <<>> /\ prods = <<>> /\ act = None
Init == c = [n |-> 0] /\ Keep
Next == /\ \/ c = [n |-> 0] /\ \E b \in 1..32 : c' = [n |-> b]
           \/ "n" \in DOMAIN c /\ c.n > 0 /\ \E x \in LET s == SetToSeq(Cases) IN {s[i] : i \in {i \in 1..Len(s) : i % 32 = c.n - 1}} : c' = [case |-> x]
        /\ UNCHANGED vars
Laws == "case" \in DOMAIN c => LET x == c.case IN
  CASE Which = "outs" -> \* each output alone says as much, and order does not matter
         WantOuts(x).ok /\ x.given # <<>> => /\ \A i \in DOMAIN x.decls : WantOuts([decls |-> <<x.decls[i]>>, given |-> <<x.given[i]>>, twice |-> FALSE]).ok
                                             /\ WantOuts([decls |-> Reverse(x.decls), given |-> Reverse(x.given), twice |-> x.twice]).ok
    [] Which = "one" -> WantOne(x).ok => V!IsA(x.art.class, x.decl.class) /\ (x.role # "map" => x.art.type = x.decl.type)
    [] OTHER -> TRUE
Emit == "case" \notin DOMAIN c \/ PrintT("@C" \o ToJson([c |-> c.case, want |-> Want(c.case)]))
=============================================================================
