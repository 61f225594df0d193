------------------------------- MODULE Versions -------------------------------
(* Which versions are interchangeable, and what follows for rebuilding: a     *)
(* producer's output is built once per class of interchangeable versions.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

SemVers(N) == [kind : {"semver"}, major : 0..N, minor : 0..N, patch : 0..N]
Others == [kind : {"string"}, value : {"", "1", "a", "1.0.0", "0.0.1", "a1"}]
     \cup [kind : {"git"}, value : {"1", "a", "a1"}]
     \cup [kind : {"timestamp"}, value : 0..3]
Makes == {"new", "copied", "updated", "pickled", "deepcopied", "used"}

Id(v) == IF v.kind # "semver" THEN <<v.kind, v.value>>
         ELSE IF v.major > 0 THEN <<"semver", v.major>> ELSE <<"semver", 0, v.minor, v.patch>>

(* ---- the table of all versions, however obtained ---- *)
VARIABLE c
TInit == c \in [v : SemVers(3) \cup Others, made : Makes]
TNext == UNCHANGED c
Laws == LET v == c.v IN v.kind = "semver" =>
          \A w \in SemVers(3) : Id(v) = Id(w) <=> (v.major = w.major /\ (v.major = 0 => v = w))
Emit == PrintT("@C" \o ToJson([c |-> c, want |-> Id(c.v)]))

(* ---- rebuilding ---- *)
S(a, b, d) == [kind |-> "semver", major |-> a, minor |-> b, patch |-> d]
SemVerFew == {S(0, 1, 0), S(0, 1, 1), S(1, 0, 0), S(1, 2, 3), S(2, 0, 0)}
OtherFew == {S(1, 0, 0), [kind |-> "string", value |-> "1"], [kind |-> "git", value |-> "1"],
             [kind |-> "timestamp", value |-> 1], [kind |-> "timestamp", value |-> 2]}
CONSTANT Few

\* done: built in this backend; disk: stored; cold: this backend has not looked at the storage yet
HInit == c = [done |-> {}, disk |-> {}, cold |-> TRUE]
Edge(a, t) == PrintT("@E" \o ToJson([s |-> c, a |-> a, t |-> t])) /\ c' = t
Needed(v) == Id(v) \notin c.done /\ ~(c.cold /\ Id(v) \in c.disk)
Build(v, how) == Edge([op |-> "build", v |-> v, how |-> how, res |-> [ran |-> Needed(v)]],
                      [done |-> c.done \cup {Id(v)}, disk |-> c.disk \cup {Id(v)}, cold |-> FALSE])
Restart == ~c.cold /\ Edge([op |-> "restart", res |-> TRUE], [c EXCEPT !.done = {}, !.cold = TRUE])
HNext == Restart \/ \E v \in Few, how \in {"class", "instance", "decorator"} : Build(v, how)
HLaws == c.done \subseteq c.disk /\ (c.cold => c.done = {})
=============================================================================
