---------------------------- MODULE OverlapTrace -----------------------------
(* Decides recorded histories of overlapping builds of the real code against *)
(* the meaning of graphs and what Overlap guarantees. Builders may share a   *)
(* metadata backend; all of them share the storage.                          *)
(*                                                                           *)
(* When a builder looks up what exists is its own business: what is demanded *)
(* is that work finished before it started is not repeated, and that its     *)
(* snapshot reads as if evaluated from scratch.                              *)
EXTENDS EngineDefs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st
T == Traces[t]
prog == T.prog
Empty == [x \in {} |-> 0]
Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ st = [raw |-> [a \in Raws(Traces[t].prog) |-> Empty],
                 ver |-> [c \in {Traces[t].prog.prods[p].cls : p \in Prods(Traces[t].prog)} |-> 1],
                 snaps |-> Empty,            \* token -> snapshot
                 run |-> Empty,              \* builder -> [be, id, had: completed executions it could know of, execs]
                 done |-> Empty,             \* backend -> executions completed by builds that ended
                 disk |-> {}, ever |-> {},
                 built |-> {}, tried |-> {}]
Ev == T.events[l]
Snap == [raw |-> st.raw, ver |-> st.ver]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(ok, what) == IF ok THEN {} ELSE {[tags |-> {"C31"}, what |-> what]}
ExecIfp(e) == <<e.cls, e.v, [j \in DOMAIN e.args |-> SeqToBag(e.args[j])]>>
Times(bag, x) == IF x \in DOMAIN bag THEN bag[x] ELSE 0
CountIfp(S, x) == Cardinality({i \in S : Ifp(i) = x})
All(b) == LET s == st.snaps[st.run[b].id] IN Instances(prog, s.ver, Eval(prog, s.raw))
StuckIn(I) == \E i \in I : Stuck(i.args)
OnDisk(S) == {i \in S : \A a \in Outs(prog, i.p) : ~prog.arts[a].lit}

ExecClauses(e) ==
  LET I == All(e.b)
      x == ExecIfp(e)
      n == Times(st.run[e.b].execs, x) + 1
  IN IF x \notin {Ifp(i) : i \in I}
     THEN If(FALSE, [clause |-> "a producer ran on inputs that are not those of this snapshot", which |-> x])
     ELSE If(n <= CountIfp(I \ st.run[e.b].had, x), [clause |-> "an execution that was finished before this build started was repeated", which |-> x])
EndClauses(e) ==
  LET I == All(e.b)
      missing == {i \in I : Ifp(i) \notin st.ever}
  IN If((e.res = "ok") = ~StuckIn(I), [clause |-> "a build failed because of another one (or succeeded without input data)", error |-> e.error])
     \cup (IF e.res # "ok" THEN {} ELSE If(missing = {}, [clause |-> "an execution needed for this snapshot never happened", which |-> missing])
                                        \cup If(e.rid = st.run[e.b].id, [clause |-> "the build reported another snapshot id"]))
Vals(f) == BagOf(f, DOMAIN f)
ReadClauses(e) ==
  LET s == st.snaps[e.via]
      A == prog.arts[e.a]
      bag == Vals(IF A.raw THEN s.raw[e.a] ELSE Eval(prog, s.raw)[e.a])
      exact == IF DOMAIN bag = {} THEN e.res = "missing" ELSE e.res = "ok" /\ SeqToBag(e.vals) = bag
  IN IF A.raw \/ <<e.be, e.via>> \in st.built
     THEN If(exact, [clause |-> "a snapshot reads differently from evaluation from scratch", want |-> bag])
     ELSE If(e.res = "missing" \/ (e.res = "ok" /\ SeqToBag(e.vals) \sqsubseteq bag), [clause |-> "an unfinished build exposes data that is not an output of it", want |-> bag])
Clauses(e) == CASE e.op = "exec" -> ExecClauses(e) [] e.op = "end" -> EndClauses(e) [] e.op = "read" -> ReadClauses(e)
                [] e.op = "snap" -> If(e.res = "ok", [clause |-> "taking a snapshot failed", error |-> e.error]) [] OTHER -> {}

Known(e) == IF e \in DOMAIN st.done THEN st.done[e] ELSE {}
After(e) ==
  CASE e.op = "raw" -> [st EXCEPT !.raw[e.a] = Put(@, e.k, e.v)]
    [] e.op = "ver" -> [st EXCEPT !.ver[e.cls] = e.v]
    [] e.op = "snap" -> [st EXCEPT !.snaps = Put(@, e.id, Snap)]
    \* (a backend looks for an artifact's partitions on storage when it is first asked about it, on behalf of one builder)
    [] e.op = "start" -> [st EXCEPT !.run = Put([b \in DOMAIN @ |-> IF @[b].be = e.be THEN [@[b] EXCEPT !.had = @ \cap Known(e.be)] ELSE @[b]], e.b, [be |-> e.be, id |-> e.id, execs |-> Empty, had |-> Known(e.be) \cup (IF e.be \in DOMAIN st.done THEN {} ELSE st.disk)]),
                                    !.done = Put(@, e.be, Known(e.be)), !.tried = @ \cup {<<e.be, e.id>>}]
    [] e.op = "exec" -> [st EXCEPT !.run[e.b].execs = Put(@, ExecIfp(e), Times(@, ExecIfp(e)) + 1), !.ever = @ \cup {ExecIfp(e)}]
    [] e.op = "end" -> IF e.res # "ok" THEN st
                       ELSE LET r == st.run[e.b] I == All(e.b) IN [st EXCEPT !.done = Put(@, r.be, Known(r.be) \cup I), !.built = @ \cup {<<r.be, r.id>>}, !.disk = @ \cup OnDisk(I)]
    [] OTHER -> st
Next == /\ l <= Len(T.events)
        /\ LET f == Clauses(Ev) IN IF f = {} THEN TRUE ELSE PrintT("@F" \o ToJson([t |-> t, l |-> l, f |-> f]))
        /\ st' = After(Ev) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l, st>>
=============================================================================
