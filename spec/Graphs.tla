-------------------------------- MODULE Graphs --------------------------------
(* Graphs are defined one artifact or producer at a time; every definition    *)
(* has one structure and, given raw data, one value per artifact              *)
(* (EngineDefs). States are the definitions.                                  *)
EXTENDS EngineDefs, Json
CONSTANTS MaxRaw, MaxProd, MaxIns, MaxOut, MaxAssigned, MaxArts

VARIABLE prog
Out(p, q) == [raw |-> FALSE, part |-> FALSE, prod |-> p, pos |-> q]
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
\* A class computes one function of a number of inputs.
ClassName(ins, nout) == "P" \o ToString(Len(ins)) \o ToString(nout)

Init == \E n \in 1..MaxRaw :
  prog = [arts |-> [i \in 1..n |-> [raw |-> TRUE, part |-> FALSE, prod |-> 0, pos |-> 0]], prods |-> <<>>]
Define(ins, nout, assigned, own) ==
  /\ Len(prog.prods) < MaxProd
  /\ Len(prog.arts) + Len(assigned) <= MaxArts
  /\ LET p == Len(prog.prods) + 1
         cls == IF own THEN "C" \o ToString(p) \o ClassName(ins, nout) ELSE ClassName(ins, nout)
     IN prog' = [arts |-> prog.arts \o [i \in DOMAIN assigned |-> Out(p, assigned[i])],
                 prods |-> Append(prog.prods, [cls |-> cls, ins |-> ins, fn |-> "lin", map |-> "all", nout |-> nout])]
Next == \E nout \in 1..MaxOut, own \in BOOLEAN :
        \E ins \in SeqsUpTo(Arts(prog), MaxIns), assigned \in SeqsUpTo(1..nout, MaxAssigned) :
          /\ assigned # <<>> /\ Define(ins, nout, assigned, own)

\* For simulation: one random definition.
RandomSeq(S, m) == [i \in 1..m |-> RandomElement(S)]
RNext == /\ Len(prog.prods) < MaxProd       \* (keeps TLC from evaluating the sets below only once)
         /\ \E n \in {RandomElement(1..MaxOut)}, own \in {RandomElement(BOOLEAN)}, ni \in {RandomElement(0..MaxIns)},
              na \in {RandomElement(1..MaxAssigned)} :
            \E ins \in {TLCEval(RandomSeq(Arts(prog), ni))}, assigned \in {TLCEval(RandomSeq(1..n, na))} :
              Define(ins, n, assigned, own)

RawData == [a \in Raws(prog) |-> [k \in {0} |-> a]]
Id(p) == <<prog.prods[p].cls, prog.prods[p].ins>>
Values == LET E == Eval(prog, RawData) IN [a \in Arts(prog) |-> E[a][0]]
Same(p) == {q \in Live(prog) : Id(q) = Id(p)}
Structure ==
  [values |-> Values,
   producers |-> {Id(p) : p \in Live(prog)},
   outputs |-> {[p |-> Id(p), of |-> UNION {{<<a, prog.arts[a].pos>> : a \in Outs(prog, q)} : q \in Same(p)}] : p \in Live(prog)},
   artdeps |-> [a \in Arts(prog) |-> IF prog.arts[a].raw THEN <<>> ELSE Id(prog.arts[a].prod)],
   proddeps |-> {[p |-> Id(p), on |-> {prog.prods[p].ins[j] : j \in DOMAIN prog.prods[p].ins}] : p \in Live(prog)}]

\* Definitions are acyclic, every output has the value of its position, and equal producers agree.
Laws == LET E == Eval(prog, RawData) IN
  /\ \A p \in Prods(prog) : \A j \in DOMAIN prog.prods[p].ins : \A a \in Outs(prog, p) : prog.prods[p].ins[j] < a
  /\ \A a \in Arts(prog), b \in Arts(prog) :
       (~prog.arts[a].raw /\ ~prog.arts[b].raw /\ Id(prog.arts[a].prod) = Id(prog.arts[b].prod))
         => E[a][0] - E[b][0] = 7 * (prog.arts[a].pos - prog.arts[b].pos)
Emit == prog.prods = <<>> \/ PrintT("@C" \o ToJson([c |-> prog, want |-> Structure]))
EmitDone == (Len(prog.prods) = MaxProd \/ Len(prog.arts) >= MaxArts - 1) => Emit
=============================================================================
