------------------------------- MODULE Frozen -------------------------------
(* Frozen mappings: ordered dictionaries that never change.                     *)
(* A mapping is a sequence of <<key, value>> pairs, in order of first insertion. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Keys == {"a", "b", "c"}
Vals == 1..2
HasKey(m, k) == \E n \in DOMAIN m : m[n][1] = k
Ix(m, k) == CHOOSE n \in DOMAIN m : m[n][1] = k
Get(m, k) == m[Ix(m, k)][2]
Put(m, k, v) == IF HasKey(m, k) THEN [m EXCEPT ![Ix(m, k)] = <<k, v>>] ELSE Append(m, <<k, v>>)
\* Dictionary merge: the right operand wins, the left one's order comes first
Merge(m, o) == FoldLeft(LAMBDA acc, x : Put(acc, x[1], x[2]), m, o)
FromPairs(q) == Merge(<<>>, q)
Contents(m) == {m[n] : n \in DOMAIN m}
Order(m) == [n \in DOMAIN m |-> m[n][1]]

CONSTANTS MaxPairs, MaxSize
Maps == {m \in UNION {[1..n -> Keys \X Vals] : n \in 0..MaxSize} : \A x, y \in DOMAIN m : m[x][1] = m[y][1] => x = y}
Pairs == UNION {[1..n -> Keys \X Vals] : n \in 0..MaxPairs}
(* ---- constructing: from what, with which keyword arguments ---- *)
Sources == {"dict", "pairs", "iterator", "frozen", "mapping", "items"}
VARIABLE c
BuildInit == c \in [op : {"build"}, from : Sources, q : Pairs, kw : {<<>>, << <<"a", 2>> >>, << <<"c", 1>>, <<"a", 1>> >>}]
MergeInit == c \in [op : {"merge"}, l : Maps, r : Maps, with : {"frozen", "dict", "sub", "mapping"}, side : {"left", "right"}]
PairInit == c \in [op : {"pair"}, l : Maps, r : Maps]
Out(m) == [items |-> m, len |-> Len(m)]
Expect == CASE c.op = "build" -> Out(Merge(FromPairs(c.q), c.kw))
            [] c.op = "merge" -> Out(Merge(c.l, c.r))
            [] c.op = "pair" -> [eq |-> Contents(c.l) = Contents(c.r), same_order |-> c.l = c.r]
Emit == PrintT("@C" \o ToJson([c |-> c, want |-> Expect]))
Laws ==
  CASE c.op = "build" -> \A k \in Keys : HasKey(Expect.items, k) <=> (\E n \in DOMAIN c.q : c.q[n][1] = k) \/ HasKey(c.kw, k)
    [] c.op = "merge" -> /\ \A k \in Keys : HasKey(Expect.items, k) => Get(Expect.items, k) = IF HasKey(c.r, k) THEN Get(c.r, k) ELSE Get(c.l, k)
                         /\ Merge(Merge(c.l, c.r), c.r) = Merge(c.l, c.r)
    [] OTHER -> TRUE

(* ---- a history: frozen mappings next to the dictionary one of them came from ---- *)
\* src: an ordinary dictionary; f, g: frozen ones (or none)
None == << <<"none", 0>> >>
HInit == c = [src |-> <<>>, f |-> None, g |-> None]
Edge(a, t) == PrintT("@E" \o ToJson([s |-> c, a |-> a, t |-> t])) /\ c' = t
K2 == {"a", "b"}
HSet == \E k \in K2, v \in Vals : Edge([op |-> "set", k |-> k, v |-> v], [c EXCEPT !.src = Put(c.src, k, v)])
HDel == \E k \in K2 : HasKey(c.src, k) /\ Edge([op |-> "del", k |-> k], [c EXCEPT !.src = SelectSeq(c.src, LAMBDA x : x[1] # k)])
HFreeze == \E t \in {"f", "g"} : Edge([op |-> "freeze", to |-> t], [c EXCEPT ![t] = c.src])
HMerge == \E t \in {"f", "g"}, l, r \in {"f", "g", "src"} :
            /\ c[l] # None /\ c[r] # None /\ ~(l = "src" /\ r = "src")
            /\ Edge([op |-> "merge", to |-> t, l |-> l, r |-> r], [c EXCEPT ![t] = Merge(c[l], c[r])])
HCopy == \E s, t \in {"f", "g"}, how \in {"copy", "deepcopy", "pickle", "again", "dict", "or"} : c[s] # None /\ Edge([op |-> "copy", of |-> s, to |-> t, how |-> how], [c EXCEPT ![t] = c[s]])
HRefuse == \E s \in {"f", "g"}, what \in {"set", "del", "clear", "update", "pop", "popitem", "setdefault", "ior_in_place"} :
             c[s] # None /\ Edge([op |-> "refuse", of |-> s, what |-> what, res |-> TRUE], c)
HLook == \E s \in {"f", "g"}, k \in Keys : c[s] # None /\ Edge([op |-> "look", of |-> s, k |-> k,
             res |-> IF HasKey(c[s], k) THEN [there |-> TRUE, v |-> Get(c[s], k)] ELSE [there |-> FALSE]], c)
HNext == HSet \/ HDel \/ HFreeze \/ HMerge \/ HCopy \/ HRefuse \/ HLook
HLaws == \A s \in {"src", "f", "g"} : \A x, y \in DOMAIN c[s] : c[s][x][1] = c[s][y][1] => x = y
Next == FALSE /\ c' = c
=============================================================================
