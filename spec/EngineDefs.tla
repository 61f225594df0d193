----------------------------- MODULE EngineDefs -----------------------------
(***************************************************************************)
(* What a graph means: the value of every artifact partition as a function *)
(* of the raw data, and what one producer execution depends on.            *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   arts  : sequence of [raw, part, prod, pos]; artifacts are numbered so *)
(*           that a producer's inputs precede its outputs; `prod`/`pos`    *)
(*           name the producer and output position (0 for raw artifacts)   *)
(*   prods : sequence of [cls, ins, fn, map]; `ins` is a sequence of       *)
(*           artifact numbers, `map` the partition mapping, `fn` the       *)
(*           function computed                                             *)
(* Several artifacts may be assigned the same output, and outputs may be   *)
(* left unassigned.                                                        *)
(*                                                                         *)
(* Data is an integer per partition; the partition key of unpartitioned    *)
(* artifacts is 0.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags, SequencesExt, FiniteSetsExt, TLC

Arts(prog) == DOMAIN prog.arts
Prods(prog) == DOMAIN prog.prods
Raws(prog) == {a \in Arts(prog) : prog.arts[a].raw}
Outs(prog, p) == {a \in Arts(prog) : ~prog.arts[a].raw /\ prog.arts[a].prod = p}
\* Producers without any assigned output are not part of the graph.
Live(prog) == {p \in Prods(prog) : Outs(prog, p) # {}}
PartIns(prog, p) == {j \in DOMAIN prog.prods[p].ins : prog.arts[prog.prods[p].ins[j]].part}

SeqToBag(s) == [v \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = v})]
SumBag(b) == FoldSet(LAMBDA v, acc : acc + v * b[v], 0, DOMAIN b)
BagOf(f, keys) ==                               \* the bag of values f[k], k in keys
  LET vals == {f[k] : k \in keys} IN [v \in vals |-> Cardinality({k \in keys : f[k] = v})]

Coef == <<1, 3, 5, 7>>
Weighted(args) == FoldSet(LAMBDA j, acc : acc + Coef[j] * SumBag(args[j]), 0, DOMAIN args)
Compute(fn, pos, args) ==
  CASE fn = "lin" -> Weighted(args) + 7 * (pos - 1)
    [] fn = "par" -> (Weighted(args) % 2) + 10 * (pos - 1)
    [] fn = "con" -> 4 + pos

(* The partition keys producer p yields, given its inputs' data, and the   *)
(* input partitions each of them is computed from.                         *)
KeysOf(prog, p, data) ==
  LET P == prog.prods[p]
      common == IF PartIns(prog, p) = {} THEN {}
                ELSE {k \in DOMAIN data[P.ins[Min(PartIns(prog, p))]] :
                        \A j \in PartIns(prog, p) : k \in DOMAIN data[P.ins[j]]}
  IN CASE P.map = "all" -> {0}
       [] P.map = "each" -> common
       [] P.map = "win" -> common
       [] P.map = "odd" -> {k \in common : k % 2 = 1}
       [] P.map = "fan" -> {1, 2}
       [] P.map = "prev" -> {k \in common : \A j \in PartIns(prog, p) : k - 1 \in DOMAIN data[P.ins[j]]}
       [] P.map = "group" -> {(k % 2) + 1 : k \in common}
       [] P.map = "gap" -> common

InputKeys(prog, p, j, k, data) ==
  LET P == prog.prods[p]
      have == DOMAIN data[P.ins[j]]
  IN IF j \notin PartIns(prog, p) \/ P.map \in {"all", "fan"} THEN have
     ELSE IF P.map = "win" THEN {k, k - 1} \cap have
     ELSE IF P.map = "prev" THEN {k - 1}
     ELSE IF P.map = "group" THEN {x \in have : (x % 2) + 1 = k}
     ELSE IF P.map = "gap" /\ j = Max(PartIns(prog, p)) /\ k > 2 THEN {}
     ELSE {k}

ArgsOf(prog, p, k, data) ==
  [j \in DOMAIN prog.prods[p].ins |->
     BagOf(data[prog.prods[p].ins[j]], InputKeys(prog, p, j, k, data))]

\* An execution needs at least one partition of every input.
Stuck(args) == \E j \in DOMAIN args : DOMAIN args[j] = {}

(* Evaluation from scratch. A stuck execution yields no partition (and the *)
(* build that needs it fails).                                             *)
RECURSIVE EvalTo(_, _, _)
EvalTo(prog, raw, n) ==
  IF n = 0 THEN <<>>
  ELSE LET before == EvalTo(prog, raw, n - 1)
           A == prog.arts[n]
           p == A.prod
       IN Append(before,
            IF A.raw THEN raw[n]
            ELSE [k \in {k \in KeysOf(prog, p, before) : ~Stuck(ArgsOf(prog, p, k, before))} |->
                    Compute(prog.prods[p].fn, A.pos, ArgsOf(prog, p, k, before))])
Eval(prog, raw) == EvalTo(prog, raw, Len(prog.arts))

(* All executions a build of a snapshot consists of. `ver` is the version  *)
(* of each producer class.                                                 *)
Instances(prog, ver, data) ==
  UNION {{[p |-> p, k |-> k, cls |-> prog.prods[p].cls, v |-> ver[prog.prods[p].cls],
           args |-> ArgsOf(prog, p, k, data)] : k \in KeysOf(prog, p, data)} : p \in Live(prog)}

\* What identifies a computation, independent of where its output is stored.
Ifp(i) == <<i.cls, i.v, i.args>>
=============================================================================
