------------------------------- MODULE Overlap -------------------------------
(***************************************************************************)
(* Builds that overlap: two builders working on one storage, through one    *)
(* metadata backend or each through its own, step by step in any order,     *)
(* either of which may be lost at any point. The second may start from a    *)
(* later state: another version of a producer, or one more raw partition.   *)
(*                                                                          *)
(* There is no locking. What keeps the builds right is that whatever is     *)
(* stored is named by what it was computed from, that a partition is made   *)
(* known only once stored as a whole, and that each builder links only      *)
(* partitions of the names it computed itself.                              *)
(***************************************************************************)
EXTENDS EngineDefs, Json

CONSTANTS Programs,
          MaxSwitch,      \* how often a builder is put aside for the other one (99: any number of times)
          Losses,         \* how many builders may be lost
          Emitting        \* print every schedule

Builders == {1, 2}
VARIABLES prog, raw, ver, share, second,
          disk,           \* stored output partitions [a, k, ifp, val, whole]
          known, warm,    \* per backend: partitions recorded, artifacts looked up
          links,          \* per backend and snapshot
          bs, built, tried, last, switches, lost, sched
vars == <<prog, raw, ver, share, second, disk, known, warm, links, bs, built, tried, last, switches, lost, sched>>

Classes(P) == {P.prods[p].cls : p \in Prods(P)}
Idle == [on |-> FALSE, over |-> FALSE]
Be(b) == IF share THEN 1 ELSE b
Snap == [raw |-> raw, ver |-> ver]
HasPart(P) == \E a \in Raws(P) : P.arts[a].part
Init == /\ prog \in {Programs[i] : i \in DOMAIN Programs}
        /\ share \in BOOLEAN
        /\ second \in {"same"} \cup (IF HasPart(prog) THEN {"raw"} ELSE {}) \cup (IF Classes(prog) # {} THEN {"ver"} ELSE {})
        /\ raw = [a \in Raws(prog) |-> IF ~prog.arts[a].part THEN [k \in {0} |-> 1] ELSE IF second = "raw" THEN [k \in {1} |-> 1] ELSE [k \in {1, 2} |-> k]]
        /\ ver = [c \in Classes(prog) |-> 1]
        /\ disk = {} /\ known = [e \in 1..2 |-> {}] /\ warm = [e \in 1..2 |-> {}] /\ links = [e \in 1..2 |-> <<>>]
        /\ bs = [b \in Builders |-> Idle] /\ built = {} /\ tried = {} /\ last = 0 /\ switches = 0 /\ lost = {} /\ sched = <<>>

Turn(b) == /\ bs[b].on /\ b \notin lost
           /\ \/ last \in {0, b} \/ ~bs[last].on \/ last \in lost
              \/ MaxSwitch = 99 \/ switches < MaxSwitch
           /\ switches' = IF last \in {0, b} \/ ~bs[last].on \/ last \in lost \/ MaxSwitch = 99 THEN switches ELSE switches + 1
           /\ last' = b
           /\ sched' = IF Emitting THEN Append(sched, b) ELSE sched

LinksOf(e, s, a) == IF s \in DOMAIN links[e] THEN {x \in links[e][s] : x.a = a} ELSE {}
DataOf(e, s, a) == LET L == LinksOf(e, s, a) IN [k \in {x.k : x \in L} |-> (CHOOSE x \in L : x.k = k).val]
AddLinks(e, s, X) == [links EXCEPT ![e] = [t \in DOMAIN @ \cup {s} |-> (IF t \in DOMAIN @ THEN @[t] ELSE {}) \cup (IF t = s THEN X ELSE {})]]
RawLinks == {[a |-> a, k |-> k, ifp |-> <<>>, val |-> raw[a][k]] : <<a, k>> \in UNION {{<<a, k>> : k \in DOMAIN raw[a]} : a \in Raws(prog)}}

(* The first builder starts; the second at any later time, after its change. *)
Begin(b, s) ==
  /\ bs' = [bs EXCEPT ![b] = [on |-> TRUE, over |-> FALSE, s |-> s, left |-> Live(prog), p |-> 0, ks |-> {}, todo |-> {}, cur |-> <<>>]]
  /\ tried' = tried \cup {<<Be(b), s>>}
Start1 ==
  /\ ~bs[1].on /\ ~bs[1].over /\ Begin(1, Snap) /\ links' = AddLinks(Be(1), Snap, RawLinks)
  /\ last' = 1 /\ sched' = IF Emitting THEN <<1>> ELSE <<>>
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, built, switches, lost>>
Start2 ==
  /\ (bs[1].on \/ bs[1].over) /\ ~bs[2].on /\ ~bs[2].over
  /\ last = 1 /\ (~bs[1].on \/ 1 \in lost \/ MaxSwitch = 99 \/ switches < MaxSwitch)
  /\ switches' = IF ~bs[1].on \/ 1 \in lost \/ MaxSwitch = 99 THEN switches ELSE switches + 1
  /\ last' = 2 /\ sched' = IF Emitting THEN Append(sched, 2) ELSE sched
  /\ \E r \in {IF second = "raw" THEN [a \in Raws(prog) |-> IF prog.arts[a].part THEN (1 :> 1 @@ 2 :> 2) ELSE raw[a]] ELSE raw} :
     \E v \in IF second = "ver" THEN {[ver EXCEPT ![c] = 2] : c \in {CHOOSE c \in Classes(prog) : TRUE}} ELSE {ver} :
       /\ raw' = r /\ ver' = v
       /\ LET s == [raw |-> r, ver |-> v]
              rl == {[a |-> a, k |-> k, ifp |-> <<>>, val |-> r[a][k]] : <<a, k>> \in UNION {{<<a, k>> : k \in DOMAIN r[a]} : a \in Raws(prog)}}
          IN Begin(2, s) /\ links' = AddLinks(Be(2), s, rl)
  /\ UNCHANGED <<prog, share, second, disk, known, warm, built, lost>>

InputsReady(b, p) == \A j \in DOMAIN prog.prods[p].ins : LET A == prog.arts[prog.prods[p].ins[j]] IN A.raw \/ A.prod \notin bs[b].left
Data(b) == [a \in Arts(prog) |-> DataOf(Be(b), bs[b].s, a)]
InstOf(b, p, k) == [p |-> p, k |-> k, cls |-> prog.prods[p].cls, v |-> bs[b].s.ver[prog.prods[p].cls], args |-> ArgsOf(prog, p, k, Data(b))]
Ready(b) == {p \in bs[b].left : InputsReady(b, p)}

Map(b) ==        \* which partitions the next producer yields
  /\ Turn(b) /\ bs[b].p = 0 /\ Ready(b) # {}
  /\ LET p == Min(Ready(b)) IN bs' = [bs EXCEPT ![b].p = p, ![b].ks = KeysOf(prog, p, Data(b)), ![b].todo = {-1}]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, built, tried, lost>>
Discover(b) ==   \* which of them exist
  /\ Turn(b) /\ bs[b].p # 0 /\ bs[b].todo = {-1}
  /\ LET p == bs[b].p
         e == Be(b)
         ifp == [k \in bs[b].ks |-> Ifp(InstOf(b, p, k))]
         asked(X) == {x \in X : x.a \in Outs(prog, p) /\ x.k \in bs[b].ks /\ x.ifp = ifp[x.k]}
         known1 == known[e] \cup {x \in asked(disk) : x.a \notin warm[e]}
         found == asked(known1)
         have(k) == \A a \in Outs(prog, p) : \E x \in found : x.a = a /\ x.k = k
     IN /\ known' = [known EXCEPT ![e] = known1]
        /\ warm' = [warm EXCEPT ![e] = IF bs[b].ks = {} THEN @ ELSE @ \cup Outs(prog, p)]
        /\ links' = AddLinks(e, bs[b].s, found)
        /\ bs' = [bs EXCEPT ![b].todo = {k \in bs[b].ks : ~have(k)}]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, built, tried, lost>>
Execute(b) ==
  /\ Turn(b) /\ bs[b].p # 0 /\ bs[b].todo \notin {{}, {-1}} /\ bs[b].cur = <<>>
  /\ LET k == Min(bs[b].todo) IN /\ ~Stuck(InstOf(b, bs[b].p, k).args)
                                 /\ bs' = [bs EXCEPT ![b].cur = <<k, InstOf(b, bs[b].p, k), Outs(prog, bs[b].p), "store">>]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, built, tried, lost>>
Next1(b) == Min(bs[b].cur[3])
Part(b) == LET i == bs[b].cur[2] a == Next1(b) IN [a |-> a, k |-> bs[b].cur[1], ifp |-> Ifp(i), val |-> Compute(prog.prods[bs[b].p].fn, prog.arts[a].pos, i.args)]
At(b, x) == bs[b].on /\ bs[b].p # 0 /\ bs[b].cur # <<>> /\ bs[b].cur[4] = x
Write(b) ==      \* what is only partly written has another name
  /\ Turn(b) /\ At(b, "store") /\ bs' = [bs EXCEPT ![b].cur[4] = "writing"]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, built, tried, lost>>
Store(b) ==
  /\ Turn(b) /\ At(b, "writing") /\ disk' = disk \cup {Part(b)} /\ bs' = [bs EXCEPT ![b].cur[4] = "record"]
  /\ UNCHANGED <<prog, raw, ver, share, second, known, warm, links, built, tried, lost>>
Record(b) ==
  /\ Turn(b) /\ At(b, "record") /\ known' = [known EXCEPT ![Be(b)] = @ \cup {Part(b)}] /\ bs' = [bs EXCEPT ![b].cur[4] = "link"]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, warm, links, built, tried, lost>>
Link(b) ==
  /\ Turn(b) /\ At(b, "link") /\ links' = AddLinks(Be(b), bs[b].s, {Part(b)})
  /\ LET rest == bs[b].cur[3] \ {Next1(b)} IN
       IF rest = {} THEN bs' = [bs EXCEPT ![b].cur = <<>>, ![b].todo = @ \ {bs[b].cur[1]}] ELSE bs' = [bs EXCEPT ![b].cur[3] = rest, ![b].cur[4] = "store"]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, built, tried, lost>>
NextProducer(b) ==
  /\ Turn(b) /\ bs[b].p # 0 /\ bs[b].todo = {} /\ bs[b].cur = <<>>
  /\ bs' = [bs EXCEPT ![b].p = 0, ![b].left = @ \ {bs[b].p}]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, built, tried, lost>>
Finish(b) ==
  /\ Turn(b) /\ bs[b].left = {}
  /\ built' = built \cup {<<Be(b), bs[b].s>>} /\ bs' = [bs EXCEPT ![b].on = FALSE, ![b].over = TRUE]
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, tried, lost>>
Lose(b) ==       \* (put down as the builder's number, negated)
  /\ bs[b].on /\ b \notin lost /\ Cardinality(lost) < Losses /\ last = b
  /\ lost' = lost \cup {b} /\ sched' = IF Emitting THEN Append(sched, -b) ELSE sched
  /\ UNCHANGED <<prog, raw, ver, share, second, disk, known, warm, links, bs, built, tried, last, switches>>

Next == Start1 \/ Start2 \/ \E b \in Builders : Map(b) \/ Discover(b) \/ Execute(b) \/ Write(b) \/ Store(b) \/ Record(b) \/ Link(b) \/ NextProducer(b) \/ Finish(b) \/ Lose(b)
Spec == Init /\ [][Next]_vars

(* ---- what overlapping builds guarantee ---- *)
TrueData(s) == Eval(prog, s.raw)
Fresh(x) == LET D == TrueData(x[2]) IN \A a \in Arts(prog) : DataOf(x[1], x[2], a) = D[a] /\ Cardinality(LinksOf(x[1], x[2], a)) = Cardinality(DOMAIN D[a])
BuiltIsFresh == \A x \in built : Fresh(x)
TriedIsSound == \A x \in tried : LET D == TrueData(x[2]) IN \A y \in links[x[1]][x[2]] : y.k \in DOMAIN D[y.a] /\ y.val = D[y.a][y.k]
Deterministic == \A x \in disk, y \in disk : (x.a = y.a /\ x.k = y.k /\ x.ifp = y.ifp) => x.val = y.val
KnownIsStored == \A e \in 1..2 : known[e] \subseteq disk
Stable == [][\A x \in built : Fresh(x)']_vars
\* Whatever the other builder does, a builder that is not lost gets on.
CanMove(b) == ENABLED (Map(b) \/ Discover(b) \/ Execute(b) \/ Write(b) \/ Store(b) \/ Record(b) \/ Link(b) \/ NextProducer(b) \/ Finish(b))
NeverStuck == MaxSwitch # 99 \/ \A b \in Builders : (bs[b].on /\ b \notin lost) => CanMove(b)
OverlapView == <<prog, raw, ver, share, second, disk, known, warm, links, bs, built, tried, last, switches, lost>>
Ended(b) == bs[b].over \/ b \in lost
EmitSched == (Emitting /\ Ended(1) /\ Ended(2)) => PrintT("@S" \o ToJson([prog |-> prog, share |-> share, second |-> second, sched |-> sched]))
=============================================================================
