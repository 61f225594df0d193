---------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Decides recorded histories of the real implementation against the       *)
(* meaning of graphs (EngineDefs) and the contract Engine satisfies.       *)
(*                                                                         *)
(* Every event is judged: failing clauses are printed with the properties  *)
(* they belong to, and the history goes on from what was observed.         *)
(*                                                                         *)
(* Only facts the implementation has no freedom in are demanded: the order *)
(* of independent executions is free, and after a fault an execution may   *)
(* be "maybe" complete (both reusing and repeating it are accepted).       *)
(***************************************************************************)
EXTENDS EngineDefs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, st
vars == <<t, l, st>>

T == Traces[t]
prog == T.prog
Empty == [x \in {} |-> 0]
Classes == {prog.prods[p].cls : p \in Prods(prog)}

Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ st = [raw |-> [a \in Raws(Traces[t].prog) |-> Empty],
                 ver |-> [c \in {Traces[t].prog.prods[p].cls : p \in Prods(Traces[t].prog)} |-> 1],
                 snaps |-> Empty,          \* token -> snapshot
                 ids |-> {},               \* <<snapshot, token>> pairs seen
                 built |-> {}, tried |-> {}, last |-> <<>>,
                 done |-> {}, maybe |-> {}, disk |-> {}, diskm |-> {},
                 cold |-> TRUE, looked |-> {}, faulted |-> FALSE]

Ev == T.events[l]
Snap == [raw |-> st.raw, ver |-> st.ver]
HasData == \A a \in Raws(prog) : DOMAIN st.raw[a] # {}
Data(s) == Eval(prog, s.raw)

C(tags, what) == [tags |-> tags, what |-> what]
If(ok, tags, what) == IF ok THEN {} ELSE {C(tags, what)}

Args(e) == [j \in DOMAIN e.args |-> SeqToBag(e.args[j])]
ExecIfp(e) == <<e.cls, e.v, Args(e)>>

(* ---- builds ---- *)
B(e) ==
  LET s == st.snaps[e.id]
      I == Instances(prog, s.ver, Data(s))
      D == {i \in I : i \in st.done \/ ((st.cold \/ s \in st.looked) /\ i \in st.disk)}
      O == {i \in I \ D : i \in st.maybe \cup st.disk \cup st.diskm}
      N == I \ (D \cup O)
      okx == SelectSeq(e.execs, LAMBDA x : x.ok)
      badx == SelectSeq(e.execs, LAMBDA x : ~x.ok)
  IN [s |-> s, I |-> I, D |-> D, O |-> O, N |-> N,
      ran |-> SeqToBag([n \in DOMAIN okx |-> ExecIfp(okx[n])]),
      failed |-> {ExecIfp(badx[n]) : n \in DOMAIN badx},
      stuck |-> \E i \in I : Stuck(i.args)]

Times(bag, x) == IF x \in DOMAIN bag THEN bag[x] ELSE 0
CountIfp(S, x) == Cardinality({i \in S : Ifp(i) = x})

BuildClauses(e) ==
  LET b == B(e)
      all == {Ifp(i) : i \in b.I}
      ran == DOMAIN b.ran \cup b.failed
      total(x) == Times(b.ran, x) + (IF x \in b.failed THEN 1 ELSE 0)
      wrong == {x \in ran : x \notin all}
      again == {x \in ran \ wrong : total(x) > CountIfp(b.N, x) + CountIfp(b.O, x)}
      skipped == IF e.res # "ok" THEN {} ELSE {x \in all : Times(b.ran, x) < CountIfp(b.N, x)}
      F == IF st.faulted THEN {"C04"} ELSE {}
      Old == IF b.s # Snap THEN {"C05"} ELSE {}      \* an older snapshot is built (again)
  IN UNION {
       If(wrong = {}, {"C01", "C08"} \cup F \cup Old, [clause |-> "a producer ran on inputs that are not those of this snapshot", which |-> wrong]),
       If(again = {}, {"C02"} \cup F, [clause |-> "a finished execution was repeated", which |-> again]),
       If(skipped = {}, {"C01"} \cup F, [clause |-> "an execution needed for this snapshot did not happen", which |-> skipped]),
       If(e.res = "ok" => ~e.hit, {"C04"}, [clause |-> "a fault during the build was not reported"]),
       If(e.res = "ok" => ~b.stuck, {"C01"}, [clause |-> "a build succeeded although an execution has no input data"]),
       If((~e.hit /\ ~b.stuck) => e.res = "ok", {"C01"} \cup F,
          [clause |-> "a build failed without reason", error |-> e.error]),
       If((e.res = "ok" /\ e.rid # "") => e.rid = e.id, {"C06"} \cup Old, [clause |-> "the build reported another snapshot id"])
     }

AfterBuild(e) ==
  LET b == B(e) IN
  IF e.res = "ok"
  THEN [st EXCEPT !.done = @ \cup b.I, !.maybe = @ \ b.I, !.built = @ \cup {b.s}, !.tried = @ \cup {b.s},
                  !.last = <<b.s>>, !.cold = FALSE, !.looked = {}]
  ELSE LET unsure(i) == LET x == Ifp(i) IN
              \/ x \in b.failed /\ e.hit
              \/ Times(b.ran, x) > 0 /\ Times(b.ran, x) < CountIfp(b.N, x) + CountIfp(b.O, x)
           sure(i) == LET x == Ifp(i) IN
              Times(b.ran, x) > 0 /\ Times(b.ran, x) >= CountIfp(b.N, x) + CountIfp(b.O, x) /\ x \notin b.failed
           \* only a fault while the outputs are being written can leave some of them behind
           new == {i \in b.N \cup b.O : sure(i)}
           \* (or, as equal executions of different producers look alike, it is unclear which was complete)
           mb == {i \in b.N \cup b.O : unsure(i) /\ ~sure(i) /\ (e.partial \/ Times(b.ran, Ifp(i)) > 0)}
       IN [st EXCEPT !.done = @ \cup new \cup (b.D \cap st.done), !.maybe = (@ \cup mb) \ new,
                     !.tried = @ \cup {b.s}, !.cold = FALSE, !.faulted = TRUE,
                     \* What a failed first look for this snapshot did not find, the next one does
                     !.looked = IF st.cold \/ b.s \in st.looked THEN {b.s} ELSE {}]

(* ---- reads ---- *)
Vals(f) == BagOf(f, DOMAIN f)
Matches(e, want) == IF DOMAIN want = {} THEN e.res = "missing"
                    ELSE e.res = "ok" /\ SeqToBag(e.vals) = want
ReadClauses(e) ==
  LET A == prog.arts[e.a]
      live == e.via = "live"
      s == IF live THEN Snap ELSE st.snaps[e.via]
      F == IF st.faulted THEN {"C04"} ELSE {}
  IN IF A.raw
     THEN LET keys == IF live THEN DOMAIN st.raw[e.a] ELSE DOMAIN s.raw[e.a]
              there == keys \subseteq DOMAIN st.raw[e.a]
              now == [k \in keys |-> IF k \in DOMAIN st.raw[e.a] THEN st.raw[e.a][k] ELSE 0]
          IN IF live \/ (there /\ now = s.raw[e.a])
             THEN If(Matches(e, Vals(now)), {"C07"}, [clause |-> "raw data read wrongly", want |-> now])
             \* Stored data that the snapshot names was overwritten or removed: it is gone, but nothing else may appear.
             ELSE If(e.res # "ok" \/ (there /\ SeqToBag(e.vals) = Vals(now)), {"C07"},
                     [clause |-> "raw data that is not part of the snapshot was returned", want |-> now])
     ELSE IF live /\ ~HasData
          THEN If(e.res = "err", {"C06", "C07"}, [clause |-> "a snapshot without raw data was accepted"])
     ELSE LET want == Data(s)[e.a]
              bag == Vals(want)
          IN IF s \in st.built
             THEN If(Matches(e, bag),
                     (IF st.last = <<s>> THEN {"C01", "C07"} ELSE {"C05", "C07"} \cup (IF live THEN {"C01"} ELSE {})) \cup F,
                     [clause |-> IF st.last = <<s>> THEN "a built artifact reads differently from evaluation from scratch"
                                 ELSE "an earlier snapshot reads differently from what it was built with", want |-> want])
             ELSE IF s \in st.tried
             THEN If(e.res = "missing" \/ (e.res = "ok" /\ SeqToBag(e.vals) \sqsubseteq bag), {"C04", "C07"},
                     [clause |-> "a failed build exposes data that is not an output of it", want |-> want])
             ELSE If(e.res = "missing", {"C07", "C05"}, [clause |-> "data of another snapshot was returned", want |-> want])

(* ---- snapshots ---- *)
SnapClauses(e) ==
  IF ~HasData THEN If(e.res = "err", {"C06"}, [clause |-> "a snapshot without raw data was accepted"])
  ELSE UNION {
    If(e.res = "ok", {"C06", "C01"}, [clause |-> "taking a snapshot failed", error |-> e.error]),
    If(\A x \in st.ids : x[1] = Snap => x[2] = e.id, {"C06"}, [clause |-> "the same state got another snapshot id"]),
    If(\A x \in st.ids : x[2] = e.id => x[1] = Snap, {"C06"}, [clause |-> "a changed state got the same snapshot id"])}

Clauses(e) ==
  CASE e.op = "build" -> BuildClauses(e)
    [] e.op = "read" -> ReadClauses(e)
    [] e.op = "snap" -> SnapClauses(e)
    [] OTHER -> {}

OnDisk(S) == {i \in S : \A a \in Outs(prog, i.p) : ~prog.arts[a].lit}
After(e) ==
  CASE e.op = "raw" -> [st EXCEPT !.raw[e.a] = [x \in DOMAIN @ \cup {e.k} |-> IF x = e.k THEN e.v ELSE @[x]]]
    [] e.op = "rawdel" -> [st EXCEPT !.raw[e.a] = [x \in DOMAIN @ \ {e.k} |-> @[x]]]
    [] e.op = "ver" -> [st EXCEPT !.ver[e.cls] = e.v]
    [] e.op = "fresh" -> [st EXCEPT !.snaps = Empty, !.built = {}, !.tried = {}, !.last = <<>>, !.done = {}, !.maybe = {},
                                    !.disk = @ \cup OnDisk(st.done), !.diskm = @ \cup OnDisk(st.maybe), !.cold = TRUE, !.looked = {}]
    [] e.op = "snap" -> IF e.res # "ok" THEN st
                        ELSE [st EXCEPT !.snaps = [x \in DOMAIN @ \cup {e.id} |-> IF x = e.id THEN Snap ELSE @[x]],
                                        !.ids = @ \cup {<<Snap, e.id>>}]
    [] e.op = "build" -> AfterBuild(e)
    \* The same producers were run for a graph with other keys for the outputs: some work may be shared.
    [] e.op = "rewired" -> IF e.id = "" THEN st
         ELSE [st EXCEPT !.maybe = @ \cup (Instances(prog, st.ver, Data(Snap)) \ st.done),
                         !.ids = @ \cup {<<[rewired |-> Snap], e.id>>}]
    [] OTHER -> st

Next == /\ l <= Len(T.events)
        /\ LET f == Clauses(Ev) IN
             IF f = {} THEN TRUE ELSE PrintT("@F" \o ToJson([t |-> t, l |-> l, f |-> f]))
        /\ st' = After(Ev) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
