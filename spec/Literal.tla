-------------------------------- MODULE Literal --------------------------------
(* Literals produced in a graph: each location (artifact, partition, input      *)
(* fingerprint) is given a value once, by a build or by hand, and lives in the  *)
(* backend; snapshots return what is linked to them.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Arts, Backends, Others
Inputs == {0, 1}                       \* contents of the raw artifact the producers read
Slots(a) == IF a = "Q" THEN {0, 1} ELSE {0}
Places == {<<a, s>> : a \in Arts, s \in {0, 1}} \ {<<a, 1>> : a \in Arts \ {"Q"}}
Fps == Inputs \cup Others              \* input fingerprints: of the inputs, and others
Built(p, i) == 10 + i + 5 * p[2]       \* what a build computes
Hand == 7
None == 0 - 1

VARIABLES be, x, stored, linked
vars == <<be, x, stored, linked>>
View == vars
ShowF(f) == [b \in Backends |-> {<<q[1][1], q[1][2], q[2], f[b][q[1]][q[2]]>> : q \in {q \in Places \X Fps : f[b][q[1]][q[2]] # None}}]
Show(f, I) == [b \in Backends |-> {<<q[1], q[2], f[b][q[1]][q[2]]>> : q \in {q \in Places \X I : f[b][q[1]][q[2]] # None}}]
St(b, i, s, l) == [be |-> b, x |-> i, stored |-> ShowF(s), linked |-> Show(l, Inputs)]

Init == /\ be = "A" /\ x = 0
        /\ stored = [b \in Backends |-> [p \in Places |-> [i \in Fps |-> None]]]
        /\ linked = [b \in Backends |-> [p \in Places |-> [i \in Inputs |-> None]]]
Edge(a, b, i, s, l) ==
  /\ PrintT("@E" \o ToJson([s |-> St(be, x, stored, linked), a |-> a, t |-> St(b, i, s, l)]))
  /\ be' = b /\ x' = i /\ stored' = s /\ linked' = l

Change == \E i \in Inputs \ {x} : Edge([op |-> "change", x |-> i, res |-> "ok"], be, i, stored, linked)
Switch == \E b \in Backends \ {be} : Edge([op |-> "switch", be |-> b, res |-> "ok"], b, x, stored, linked)
Reopen == Edge([op |-> "reopen", res |-> "ok"], be, x, stored, linked)
\* What has a value is not computed again, all of it ends up in the snapshot.
Build ==
  LET todo == {p \in Places : stored[be][p][x] = None}
      s == [stored EXCEPT ![be] = [p \in Places |-> [@[p] EXCEPT ![x] = IF p \in todo THEN Built(p, x) ELSE @]]]
  IN Edge([op |-> "build", res |-> todo], be, x, s, [linked EXCEPT ![be] = [p \in Places |-> [@[p] EXCEPT ![x] = s[be][p][x]]]])
\* By hand: in the graph, or for the snapshot
Write(p, i, v, via) ==
  /\ stored[be][p][i] \in {None, v} /\ (via = "snapshot" => i = x)
  /\ Edge([op |-> "write", p |-> p, fp |-> i, v |-> v, via |-> via, res |-> "ok"], be, x, [stored EXCEPT ![be][p][i] = v],
          IF via = "snapshot" THEN [linked EXCEPT ![be][p][x] = v] ELSE linked)
\* Refused: without an input fingerprint, without the partition's key, with one too many
Refuse(a, how) == CASE how = "no fingerprint" -> TRUE [] how = "no key" -> a = "Q" [] how = "a key" -> a # "Q"
Bad == \E a \in Arts, how \in {"no fingerprint", "no key", "a key"} : Refuse(a, how) /\ Edge([op |-> "refused write", a |-> a, how |-> how, x |-> x, res |-> "refused"], be, x, stored, linked)
Next == Change \/ Switch \/ Reopen \/ Build \/ Bad
        \/ \E p \in Places, i \in Fps, via \in {"graph", "snapshot"} : \E v \in {Hand} \cup (IF i \in Inputs THEN {Built(p, i)} ELSE {}) : Write(p, i, v, via)
Spec == Init /\ [][Next]_vars

Laws == \A b \in Backends, p \in Places, i \in Inputs : linked[b][p][i] # None => linked[b][p][i] = stored[b][p][i]
Once == [][\A b \in Backends, p \in Places, i \in Fps : stored[b][p][i] # None => stored'[b][p][i] = stored[b][p][i]]_vars
Stays == [][\A b \in Backends, p \in Places, i \in Inputs : linked[b][p][i] # None => linked'[b][p][i] = linked[b][p][i]]_vars
Apart == [][\A b \in Backends, p \in Places, i \in Fps : stored'[b][p][i] # stored[b][p][i] => b = be]_vars
=============================================================================
