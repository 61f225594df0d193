------------------------------ MODULE SnapshotId ------------------------------
(* What a snapshot id identifies: the set of facts below and nothing else.    *)
(*                                                                            *)
(* A configuration describes one graph over raw artifacts a and b (b is       *)
(* partitioned) and possibly z, a producer of two outputs assigned to c and   *)
(* d, a producer of e from one of them, the raw data, and circumstances that  *)
(* must not matter (`order`, `past`). All configurations up to Dist           *)
(* differences from the base one are enumerated.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Dist

Base == [name |-> "g", tags |-> "none", akey |-> "a", adef |-> "json", av |-> 1, b1 |-> 1, b2 |-> 2,
         z |-> "none", pver |-> 1, pcls |-> "P", wire |-> "cd", src |-> "c", keep |-> "both", ehow |-> "Q",
         order |-> 0, past |-> "none"]
Dom == [name |-> {"g", "h"}, tags |-> {"none", "t1", "t2", "t1u1"}, akey |-> {"a", "n.a", "a2"},
        adef |-> {"json", "pickle", "annotated", "int32"}, av |-> 0..2, b1 |-> 0..2, b2 |-> 0..2,
        z |-> {"none", "own", "shared", "alike"}, pver |-> 1..2, pcls |-> {"P", "P2"}, wire |-> {"cd", "dc"}, src |-> {"c", "d"},
        keep |-> {"both", "c"}, ehow |-> {"Q", "Q2"},
        order |-> 0..2, past |-> {"none", "built", "reverted", "used", "pickled", "early", "connection", "copy"}]
Fields == DOMAIN Base
RECURSIVE Near(_)
Near(d) == IF d = 0 THEN {Base}
           ELSE LET N == Near(d - 1) IN
                N \cup UNION {{[c EXCEPT ![f] = v] : v \in Dom[f]} : <<c, f>> \in N \X Fields}

Sane(c) == c.keep = "c" => (c.src = "c" /\ c.wire = "cd")
Cases == {c \in Near(Dist) : Sane(c)}

Tags(c) == CASE c.tags = "none" -> {} [] c.tags = "t1" -> {<<"t", "1">>} [] c.tags = "t2" -> {<<"t", "2">>}
             [] c.tags = "t1u1" -> {<<"t", "1">>, <<"u", "1">>}
Place(c, key) == <<c.name, Tags(c), key>>
\* artifacts by key, with everything about their definition
ADef(c) == <<c.adef, Place(c, c.akey)>>
Raw(c) == {<<c.akey, ADef(c)>>, <<"b", <<"coll", Place(c, "b")>>>>}
          \cup (IF c.z = "none" THEN {} ELSE {<<"z", IF c.z = "own" THEN <<c.adef, Place(c, "z")>> ELSE <<c.z, ADef(c)>>>>})
Prods(c) == {<<c.pcls, c.pver, <<c.akey, ADef(c)>>, "b">>}
\* the output c / d stand for
Out1(c) == IF c.wire = "cd" THEN "c" ELSE "d"
Out2(c) == IF c.wire = "cd" THEN "d" ELSE "c"
Outputs(c) == {<<Out1(c), <<c.pcls, c.pver>>, 1>>} \cup (IF c.keep = "both" THEN {<<Out2(c), <<c.pcls, c.pver>>, 2>>} ELSE {})
              \cup {<<"e", <<c.ehow, c.src>>, 1>>}
Data(c) == {x \in {<<Place(c, c.akey), c.adef, c.av>>, <<Place(c, "b"), 1, c.b1>>, <<Place(c, "b"), 2, c.b2>>}
                  \cup (IF c.z = "own" THEN {<<Place(c, "z"), c.adef, 1>>} ELSE {}) : x[3] # 0}

Identity(c) == [name |-> c.name, tags |-> Tags(c), raw |-> Raw(c), prods |-> Prods(c), outputs |-> Outputs(c),
                data |-> Data(c)]
Refused(c) == c.av = 0 \/ (c.b1 = 0 /\ c.b2 = 0)
Expected(c) == IF Refused(c) THEN [refused |-> TRUE] ELSE Identity(c)

VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
\* The circumstances do not matter, everything else does.
Plain(x) == [x EXCEPT !.order = 0, !.past = "none"]
Laws == /\ Expected(c) = Expected(Plain(c))
        /\ \A f \in Fields \ {"order", "past"} : \A v \in Dom[f] :
             LET d == [c EXCEPT ![f] = v] IN
             (v # c[f] /\ Sane(d) /\ ~Refused(c) /\ ~Refused(d)) => Expected(c) # Expected(d)
Emit == PrintT("@C" \o ToJson([c |-> c, want |-> Expected(c)]))
=============================================================================
