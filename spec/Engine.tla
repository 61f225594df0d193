------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* Incremental builds: how a graph is brought up to date against a metadata *)
(* backend and a storage, one small step at a time, with a fault possible   *)
(* at every step, process restarts, raw data and producer version changes.  *)
(*                                                                          *)
(* The properties relate this algorithm to evaluation from scratch          *)
(* (EngineDefs!Eval).                                                       *)
(***************************************************************************)
EXTENDS EngineDefs, Json

CONSTANTS Programs,     \* sequence of programs to consider
          Values,       \* raw values
          Keys,         \* partition keys of partitioned raw artifacts
          MaxOps,       \* bound on raw/version changes, restarts and builds
          MaxVer

VARIABLES prog, raw, ver,          \* the world: program, raw data, producer versions
          disk,                    \* stored output partitions [a, k, ifp, val]
          known, warm, links,      \* backend: partitions per artifact, artifacts looked up, snapshot links
          built, tried,            \* snapshots built / attempted in this backend
          bs,                      \* the build in progress
          done, dup,               \* completed executions in this backend; an execution was repeated
          hist, ops
vars == <<prog, raw, ver, disk, known, warm, links, built, tried, bs, done, dup, hist, ops>>

Idle == [on |-> FALSE]
RawInit(P) == [a \in Raws(P) |-> IF P.arts[a].part THEN [k \in Keys |-> Min(Values)] ELSE [k \in {0} |-> Min(Values)]]
Classes(P) == {P.prods[p].cls : p \in Prods(P)}

Init == /\ prog \in {Programs[i] : i \in DOMAIN Programs}
        /\ raw = RawInit(prog)
        /\ ver = [c \in Classes(prog) |-> 1]
        /\ disk = {} /\ known = {} /\ warm = {} /\ links = <<>> /\ built = {} /\ tried = {}
        /\ bs = Idle /\ done = {} /\ dup = FALSE
        /\ hist = <<>> /\ ops = 0

Snap == [raw |-> raw, ver |-> ver]
Complete == \A a \in Raws(prog) : DOMAIN raw[a] # {}

Op(r) == hist' = Append(hist, r) /\ ops < MaxOps /\ ops' = ops + 1
Quiet == UNCHANGED <<hist, ops>>

(* ---- changes of the world, between builds ---- *)
WriteRaw(a, k, v) ==
  /\ ~bs.on
  /\ k \in (IF prog.arts[a].part THEN Keys ELSE {0})
  /\ (k \in DOMAIN raw[a]) => raw[a][k] # v
  /\ raw' = [raw EXCEPT ![a] = [x \in DOMAIN raw[a] \cup {k} |-> IF x = k THEN v ELSE raw[a][x]]]
  /\ Op([op |-> "raw", a |-> a, k |-> k, v |-> v])
  /\ UNCHANGED <<prog, ver, disk, known, warm, links, built, tried, bs, done, dup>>
DropRaw(a, k) ==
  /\ ~bs.on /\ prog.arts[a].part /\ k \in DOMAIN raw[a]
  /\ raw' = [raw EXCEPT ![a] = [x \in DOMAIN raw[a] \ {k} |-> raw[a][x]]]
  /\ Op([op |-> "rawdel", a |-> a, k |-> k])
  /\ UNCHANGED <<prog, ver, disk, known, warm, links, built, tried, bs, done, dup>>
Bump(c, v) ==
  /\ ~bs.on /\ ver[c] # v
  /\ ver' = [ver EXCEPT ![c] = v]
  /\ Op([op |-> "ver", cls |-> c, v |-> v])
  /\ UNCHANGED <<prog, raw, disk, known, warm, links, built, tried, bs, done, dup>>
Restart ==
  /\ ~bs.on /\ (known # {} \/ tried # {})
  /\ known' = {} /\ warm' = {} /\ links' = <<>> /\ built' = {} /\ tried' = {} /\ done' = {}
  /\ Op([op |-> "fresh"])
  /\ UNCHANGED <<prog, raw, ver, disk, bs, dup>>

(* ---- a build ---- *)
LinksOf(s, a) == IF s \in DOMAIN links THEN {x \in links[s] : x.a = a} ELSE {}
DataOf(s, a) == LET L == LinksOf(s, a) IN [k \in {x.k : x \in L} |-> (CHOOSE x \in L : x.k = k).val]
AddLinks(s, X) == [t \in DOMAIN links \cup {s} |->
                     (IF t \in DOMAIN links THEN links[t] ELSE {}) \cup (IF t = s THEN X ELSE {})]
RawLinks == {[a |-> a, k |-> k, ifp |-> <<>>, val |-> raw[a][k]] : <<a, k>> \in
               UNION {{<<a, k>> : k \in DOMAIN raw[a]} : a \in Raws(prog)}}

Start ==
  /\ ~bs.on /\ Complete
  /\ bs' = [on |-> TRUE, s |-> Snap, left |-> Live(prog), p |-> 0, todo |-> {}, cur |-> <<>>]
  /\ links' = AddLinks(Snap, RawLinks)
  /\ tried' = tried \cup {Snap}
  /\ Op([op |-> "build"])
  /\ UNCHANGED <<prog, raw, ver, disk, known, warm, built, done, dup>>

InputsReady(p) == \A j \in DOMAIN prog.prods[p].ins :
  LET A == prog.arts[prog.prods[p].ins[j]] IN A.raw \/ A.prod \notin bs.left
Data == [a \in Arts(prog) |-> DataOf(bs.s, a)]
InstOf(p, k) == [p |-> p, k |-> k, cls |-> prog.prods[p].cls, v |-> bs.s.ver[prog.prods[p].cls],
                 args |-> ArgsOf(prog, p, k, Data)]

\* Map the producer, look up which outputs exist for the input fingerprints, and link them.
Discover(p) ==
  /\ bs.on /\ bs.p = 0 /\ p \in bs.left /\ InputsReady(p)
  /\ LET ks == KeysOf(prog, p, Data)
         ifp == [k \in ks |-> Ifp(InstOf(p, k))]
         asked(X) == {x \in X : x.a \in Outs(prog, p) /\ x.k \in ks /\ x.ifp = ifp[x.k]}
         known1 == known \cup {x \in asked(disk) : x.a \notin warm}
         found == asked(known1)
         have(k) == \A a \in Outs(prog, p) : \E x \in found : x.a = a /\ x.k = k
     IN /\ known' = known1
        /\ warm' = IF ks = {} THEN warm ELSE warm \cup Outs(prog, p)
        /\ links' = AddLinks(bs.s, found)
        /\ done' = done \cup {InstOf(p, k) : k \in {k \in ks : have(k)}}
        /\ bs' = [bs EXCEPT !.p = p, !.todo = {k \in ks : ~have(k)}]
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, built, tried, dup>>

Execute(k) ==
  /\ bs.on /\ bs.p # 0 /\ k \in bs.todo /\ bs.cur = <<>>
  /\ ~Stuck(InstOf(bs.p, k).args)
  /\ dup' = (dup \/ InstOf(bs.p, k) \in done)
  /\ bs' = [bs EXCEPT !.cur = <<k, InstOf(bs.p, k), Outs(prog, bs.p)>>]
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, known, warm, links, built, tried, done>>

Part(a) == LET i == bs.cur[2] IN
  [a |-> a, k |-> bs.cur[1], ifp |-> Ifp(i), val |-> Compute(prog.prods[bs.p].fn, prog.arts[a].pos, i.args)]

\* Writing one output: store it, record it, link it (three points to be interrupted at).
Store(a) ==
  /\ bs.on /\ bs.cur # <<>> /\ a \in bs.cur[3] /\ Part(a) \notin disk
  /\ disk' = disk \cup {Part(a)}
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, known, warm, links, built, tried, bs, done, dup>>
Record(a) ==
  /\ bs.on /\ bs.cur # <<>> /\ a \in bs.cur[3] /\ Part(a) \in disk /\ Part(a) \notin known
  /\ known' = known \cup {Part(a)}
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, warm, links, built, tried, bs, done, dup>>
Link(a) ==
  /\ bs.on /\ bs.cur # <<>> /\ a \in bs.cur[3] /\ Part(a) \in known
  /\ links' = AddLinks(bs.s, {Part(a)})
  /\ LET rest == bs.cur[3] \ {a} IN
       IF rest = {}
       THEN /\ bs' = [bs EXCEPT !.cur = <<>>, !.todo = @ \ {bs.cur[1]}]
            /\ done' = done \cup {bs.cur[2]}
       ELSE /\ bs' = [bs EXCEPT !.cur[3] = rest] /\ UNCHANGED done
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, known, warm, built, tried, dup>>

NextProducer ==
  /\ bs.on /\ bs.p # 0 /\ bs.todo = {} /\ bs.cur = <<>>
  /\ bs' = [bs EXCEPT !.p = 0, !.left = @ \ {bs.p}]
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, known, warm, links, built, tried, done, dup>>
Finish ==
  /\ bs.on /\ bs.left = {}
  /\ built' = built \cup {bs.s} /\ bs' = Idle
  /\ Quiet /\ UNCHANGED <<prog, raw, ver, disk, known, warm, links, tried, done, dup>>

\* Anything may go wrong at any point; the build is given up.
Where == IF bs.cur # <<>> THEN [cls |-> prog.prods[bs.p].cls, kind |-> "out",
                                left |-> Cardinality(bs.cur[3]),
                                stage |-> Cardinality({a \in bs.cur[3] : Part(a) \in disk})
                                          + Cardinality({a \in bs.cur[3] : Part(a) \in known})]
         ELSE IF bs.p # 0 /\ bs.todo # {} THEN [cls |-> prog.prods[bs.p].cls, kind |-> "exec", left |-> Cardinality(bs.todo), stage |-> 0]
         ELSE [cls |-> "", kind |-> "between", left |-> Cardinality(bs.left), stage |-> 0]
Fault ==
  /\ bs.on /\ bs.left # {}
  /\ bs' = Idle
  /\ hist' = Append(hist, [op |-> "fault", at |-> Where]) /\ UNCHANGED ops
  /\ UNCHANGED <<prog, raw, ver, disk, known, warm, links, built, tried, done, dup>>

Next == \/ \E a \in Raws(prog) : \E k \in Keys \cup {0} : DropRaw(a, k) \/ \E v \in Values : WriteRaw(a, k, v)
        \/ \E c \in Classes(prog), v \in 1..MaxVer : Bump(c, v)
        \/ Restart \/ Start \/ NextProducer \/ Finish \/ Fault
        \/ \E p \in Prods(prog) : Discover(p)
        \/ \E k \in Keys \cup {0, 1, 2} : Execute(k)
        \/ \E a \in Arts(prog) : Store(a) \/ Record(a) \/ Link(a)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TrueData(s) == Eval(prog, s.raw)
AllLinks(s) == IF s \in DOMAIN links THEN links[s] ELSE {}
Fresh(s) == LET D == TrueData(s) IN
  \A a \in Arts(prog) : DataOf(s, a) = D[a] /\ Cardinality(LinksOf(s, a)) = Cardinality(DOMAIN D[a])
\* C01, C05: whatever was built reads as if evaluated from scratch, then and ever after.
BuiltIsFresh == \A s \in built : Fresh(s)
\* C04, C07: even a failed build exposes only right values.
TriedIsSound == \A s \in tried : LET D == TrueData(s) IN
  \A x \in AllLinks(s) : x.k \in DOMAIN D[x.a] /\ x.val = D[x.a][x.k]
\* C02: a completed execution is never repeated.
NoRepeat == ~dup
\* A computation's identity determines its result.
Deterministic == \A x \in known \cup disk, y \in known \cup disk : (x.a = y.a /\ x.k = y.k /\ x.ifp = y.ifp) => x.val = y.val
KnownIsStored == known \subseteq disk
\* C05: links of built snapshots never change.
Stable == [][\A s \in built : s \in built' => AllLinks(s)' = AllLinks(s)]_vars
\* C04: once faults stop, a build that was started completes (no stuck executions in these programs).
NoStuck == bs.on => (bs.left = {} \/ ENABLED (\E p \in Prods(prog) : Discover(p)) \/ bs.p # 0)

HistView == <<prog, raw, ver, disk, known, warm, links, built, tried, bs, done, dup, ops>>
Bound == ops <= MaxOps
EmitHist == (~bs.on /\ ops = MaxOps) => PrintT("@H" \o ToJson([prog |-> prog, hist |-> hist]))
=============================================================================
