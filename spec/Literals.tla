------------------------------- MODULE Literals --------------------------------
(* Literals with and without a preset value, raw and produced, partitioned and  *)
(* not: what reading, writing, taking snapshots and building them give, in any  *)
(* order. A literal next to it is never affected.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT Depth
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Values == {"1", "\"a\"", "\"{x} {graph_name}\"", "null", "[1, 2]", "{\"k\": {\"1\": []}}", "\"\"", " 7 ", "true", "1.50"}
Defs == [role : {"raw", "produced"}, part : BOOLEAN, preset : Values \cup {"unset", ""}, id : {"default", "own"}]
\* values of other types than numbers only where they are read
Sensible(d) == IF d.role = "produced" \/ d.part THEN d.preset \in {"unset", "1", ""} ELSE d.preset # ""
Ops == {"read", "snapshot read", "snapshot", "build", "write"}
Refused == [res |-> "refused"]
Missing == [res |-> "missing"]
\* Raw literals written without a preset value are left open.
Fine(d, op) == ~(op = "write" /\ d.role = "raw" /\ d.preset = "unset")
Usable(d) == ~(d.role = "raw" /\ (d.part \/ d.preset = "unset"))       \* snapshots can be taken
Built(d, st) == d.role = "produced" /\ d.preset = "unset" /\ st
Read(d, st) ==
  IF d.role = "raw" THEN IF d.part THEN Refused ELSE IF d.preset = "unset" THEN Missing ELSE [res |-> "value", is |-> d.preset]
  ELSE IF st THEN [res |-> "built"] ELSE Missing
Do(d, st, op) ==
  CASE op = "read" -> Read(d, st)
    [] op = "snapshot read" -> IF Usable(d) THEN Read(d, st) ELSE Refused
    [] op = "snapshot" -> IF Usable(d) THEN [res |-> "ok"] ELSE Refused
    [] op = "build" -> IF ~Usable(d) \/ (d.role = "produced" /\ d.preset # "unset") THEN Refused ELSE [res |-> "ok"]
    \* (by hand for another input fingerprint: stored, not part of the snapshot)
    [] op = "write" -> IF d.preset # "unset" THEN Refused ELSE [res |-> "ok"]
Run(d, ops) == FoldLeft(LAMBDA acc, op : LET r == Do(d, acc.st, op) IN [st |-> acc.st \/ (op = "build" /\ r.res = "ok" /\ d.role = "produced"), out |-> Append(acc.out, r)], [st |-> FALSE, out |-> <<>>], ops).out
Cases == {x \in [d : {d \in Defs : Sensible(d)}, ops : {o \in Seqs(Ops, Depth) : o # <<>>}] : \A i \in DOMAIN x.ops : Fine(x.d, x.ops[i])}
VARIABLE c
Init == c = [n |-> 0]
Next == \/ c = [n |-> 0] /\ \E b \in 1..16 : c' = [n |-> b]
        \/ "n" \in DOMAIN c /\ c.n > 0 /\ \E x \in LET s == SetToSeq(Cases) IN {s[i] : i \in {i \in 1..Len(s) : i % 16 = c.n - 1}} : c' = [case |-> x]
\* What a literal reads as changes at most once, from missing to what was built.
Laws == "case" \in DOMAIN c => LET o == Run(c.case.d, c.case.ops) IN
  \A i, j \in DOMAIN o : i < j /\ c.case.ops[i] = "read" /\ c.case.ops[j] = "read" => o[i] = o[j] \/ (o[i] = Missing /\ o[j].res = "built" /\ \E k \in i..j : c.case.ops[k] = "build")
Emit == "case" \notin DOMAIN c \/ PrintT("@C" \o ToJson([c |-> c.case, want |-> Run(c.case.d, c.case.ops)]))
=============================================================================
