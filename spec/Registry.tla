-------------------------------- MODULE Registry --------------------------------
(* Registries, systems of type adapters, and functions dispatched on the types   *)
(* of their arguments: in any order of registration, the most specific of the    *)
(* highest priority is used; what is refused changes nothing.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Which, Depth
Rng(s) == {s[i] : i \in DOMAIN s}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Perms(S, n) == {s \in Seqs(S, n) : Distinct(s)}

(* ---- registries: a key has one value, of the highest priority ever given for it ---- *)
\* kind "plain": without priorities
Regs == [kind : {"plain", "ranked"}, ops : {o \in Seqs([key : {"k1", "k2"}, p : 0..2], Depth) : o # <<>>}]
RegStep(kind, acc, op, i) ==
  LET old == acc.reg[op.key]
      ok(r) == [reg |-> [acc.reg EXCEPT ![op.key] = r], out |-> Append(acc.out, "ok")]
  IN IF old = 0 THEN ok(i)
     ELSE IF kind = "plain" \/ acc.pr[op.key] = op.p THEN [reg |-> acc.reg, out |-> Append(acc.out, "refused")]
     ELSE IF acc.pr[op.key] < op.p THEN ok(i) ELSE ok(old)
RegWant(x) ==
  LET f == FoldLeft(LAMBDA acc, i : LET op == x.ops[i]  s == RegStep(x.kind, acc, op, i)
                                    IN [reg |-> s.reg, out |-> s.out, pr |-> IF s.reg[op.key] = i THEN [acc.pr EXCEPT ![op.key] = op.p] ELSE acc.pr],
                    [reg |-> [k1 |-> 0, k2 |-> 0], pr |-> [k1 |-> 0, k2 |-> 0], out |-> <<>>], [i \in DOMAIN x.ops |-> i])
  IN [out |-> f.out, reg |-> f.reg]

(* ---- type systems ---- *)
\* System classes: X, Y (an X), Z; types: T, U (a T), W. Lists are converted by an adapter of the first base.
SysUp == [X |-> {"X"}, Y |-> {"Y", "X"}, Z |-> {"Z"}]
ArtUp == [T |-> {"T"}, U |-> {"U", "T"}, W |-> {"W"}]
Ad == [sys : {"X", "Y"}, art : {"T", "U"}, p : 0..1] \cup {[sys |-> "Z", art |-> "W", p |-> 0], [sys |-> "Z", art |-> "T", p |-> 1]}
\* shape: what S extends, and whether the first base extends the second
Shapes == {[ext |-> <<"B1", "B2">>, deep |-> FALSE], [ext |-> <<"B2", "B1">>, deep |-> FALSE], [ext |-> <<"B1">>, deep |-> TRUE], [ext |-> <<>>, deep |-> TRUE]}
Systems == [S : Seqs(Ad, 2), B1 : Seqs(IF Depth > 3 THEN Ad ELSE {a \in Ad : a.p = 0}, 1), B2 : Seqs(IF Depth > 3 THEN Ad ELSE {a \in Ad : a.sys # "Y"}, 1), shape : Shapes, late : BOOLEAN]
Ext(x, s) == IF s = "S" THEN x.shape.ext ELSE IF s = "B1" /\ x.shape.deep THEN <<"B2">> ELSE <<>>
\* The systems in the order they are asked
RECURSIVE Asked(_, _)
Asked(x, s) == <<s>> \o FlattenSeq([i \in DOMAIN Ext(x, s) |-> Asked(x, Ext(x, s)[i])])
Top(S) == {a \in S : \A b \in S : b.p <= a.p}
First(x, root, Fits(_)) ==
  LET as == Asked(x, root)
      hits == SelectSeq([i \in DOMAIN as |-> {a \in Rng(x[as[i]]) : Fits(a)}], LAMBDA h : h # {})
  IN IF hits = <<>> THEN {} ELSE Top(hits[1])
\* What may come out: several if adapters of equal priority match, none ("refused") if nothing matches
ToArt(x, root, s) == LET h == First(x, root, LAMBDA a : a.sys \in SysUp[s]) IN IF h = {} THEN {"refused"} ELSE {a.art : a \in h}
ToSys(x, root, t) == LET h == First(x, root, LAMBDA a : a.art \in ArtUp[t]) IN IF h = {} THEN {"refused"} ELSE {a.sys : a \in h}
HasList(x, root) == "B1" \in Rng(Asked(x, root))
Elem(x, root, res) == IF HasList(x, root) THEN res ELSE {"refused"}
SysWant(x) == [r \in {"S", "B1", "B2"} |->
  [art |-> [s \in {"X", "Y", "Z"} |-> ToArt(x, r, s)], sys |-> [t \in {"T", "U", "W"} |-> ToSys(x, r, t)],
   lists |-> [s \in {"X", "Y", "Z"} |-> Elem(x, r, ToArt(x, r, s))], syslists |-> [t \in {"T", "U", "W"} |-> Elem(x, r, ToSys(x, r, t))]]]

(* ---- dispatch ---- *)
Up == [A |-> {"A"}, A1 |-> {"A1", "A"}, A2 |-> {"A2", "A"}, A3 |-> {"A3", "A1", "A"}, AD |-> {"AD", "A1", "A2", "A"}, B |-> {"B"}, B1 |-> {"B1", "B"}, B2 |-> {"B2", "B1", "B"}]
Firsts == {"A", "A1", "A2", "A3", "AD"}  Seconds == {"B", "B1", "B2"}
Sigs == (({"A", "A1", "A2", "AD"} \X {"B", "B1"}) \cup (IF Depth > 3 THEN {<<"A3", "B">>} ELSE {})) \ {<<"A", "B">>}
Le(s, t) == \A i \in DOMAIN s : s[i] \in Up[t[i]]
Minimal(S) == {s \in S : ~\E t \in S : t # s /\ Le(s, t)}
\* asked after each registration, or at the end
Disp == [impls : {s \in Perms(Sigs, IF Depth > 3 THEN 4 ELSE 3) : s # <<>>}, every : BOOLEAN]
Picks(S, q) == Minimal({s \in S \cup {<<"A", "B">>} : Le(s, q)})
AsSeq(P) == {<<q[1], q[2]>> : q \in P}
DispWant(x) == LET after(n) == {[q |-> q, any |-> Picks({x.impls[i] : i \in 1..n}, q)] : q \in Firsts \X Seconds}
               IN IF x.every THEN [n \in DOMAIN x.impls |-> after(n)] ELSE <<after(Len(x.impls))>>

(* ---- dispatch on sequences of something ---- *)
SUp == [SA |-> {"SA"}, SA1 |-> {"SA1", "SA"}, LA |-> {"LA", "SA"}, LA1 |-> {"LA1", "LA", "SA1", "SA"}, LA3 |-> {"LA3", "LA1", "LA", "SA1", "SA"}, TA |-> {"TA", "SA"}, TA1 |-> {"TA1", "TA", "SA1", "SA"}, TA3 |-> {"TA3", "TA1", "TA", "SA1", "SA"}]
SSigs == {"SA1", "LA", "LA1", "LA3"}
SDisp == [impls : {s \in Perms(SSigs, 4) : s # <<>>}, every : BOOLEAN]
SPicks(S, q) == LET ap == {s \in S \cup {"SA"} : s \in SUp[q]} IN {s \in ap : ~\E t \in ap : t # s /\ s \in SUp[t]}
SDispWant(x) == LET after(n) == {[q |-> q, any |-> SPicks({x.impls[i] : i \in 1..n}, q)] : q \in {"LA", "LA1", "LA3", "TA", "TA1", "TA3"}}
                IN IF x.every THEN [n \in DOMAIN x.impls |-> after(n)] ELSE <<after(Len(x.impls))>>

(* ---- which implementations fit a function of (a: A, b: B) -> R ---- *)
\* A0 is a base of A, R0 of R, R1 an R; "any", "none": no hint
Fit == [a |-> {"A", "A1", "any"}, b |-> {"B", "B1", "any"}]
Param(n) == {[name |-> n, kind |-> k, hint |-> h] : k \in {"both", "keyword", "positional"}, h \in {IF n = "b" THEN "B" ELSE "A"}}
            \cup {[name |-> n, kind |-> "both", hint |-> h] : h \in {"A", "A0", "A1", "B", "B0", "B1", "any", "none"}}
Params == {<<p>> : p \in Param("a") \cup Param("b")}
          \cup UNION {Param(n) \X Param(m) : n \in {"a", "b", "z"}, m \in {"a", "b", "z"}}
          \cup {<<[name |-> x[1], kind |-> "both", hint |-> "A"], [name |-> x[2], kind |-> "both", hint |-> "B"], [name |-> x[3], kind |-> "both", hint |-> "B"]>> : x \in {<<"a", "b", "z">>, <<"a", "z", "b">>, <<"z", "a", "b">>}}
Sensible(ps) == /\ \A i, j \in DOMAIN ps : ps[i].name = ps[j].name => i = j
                /\ \A i, j \in DOMAIN ps : i < j => (ps[j].kind = "positional" => ps[i].kind = "positional") /\ (ps[i].kind = "keyword" => ps[j].kind = "keyword")
Impls == {x \in [params : {p \in Params : Sensible(p)}, ret : {"R", "R0", "R1", "B", "none"}] : x.ret = "R" \/ \A i \in DOMAIN x.params : x.params[i].kind = "both"}
ImplOK(x) == /\ Len(x.params) = 2 /\ x.params[1].name = "a" /\ x.params[2].name = "b"
             /\ \A i \in 1..2 : x.params[i].kind = "both" /\ x.params[i].hint \in Fit[x.params[i].name]
             /\ x.ret \in {"R", "R1"}
\* A hint of "any" is the base of all: the function itself is closer, or it is closer in one and farther in another (open)
ImplWant(x) == IF ~ImplOK(x) THEN [res |-> "refused"]
               ELSE [res |-> "ok", used |-> IF \A i \in 1..2 : x.params[i].hint # "any" THEN {TRUE} ELSE IF \E i \in 1..2 : x.params[i].hint \in {"A1", "B1"} THEN BOOLEAN ELSE {FALSE}]

Cases == CASE Which = "registries" -> Regs [] Which = "systems" -> Systems [] Which = "dispatch" -> Disp [] Which = "sequences" -> SDisp [] Which = "implementations" -> Impls
Want(x) == CASE Which = "registries" -> RegWant(x) [] Which = "systems" -> SysWant(x) [] Which = "dispatch" -> DispWant(x) [] Which = "sequences" -> SDispWant(x) [] Which = "implementations" -> ImplWant(x)
VARIABLE c
Init == c = [n |-> 0]
Next == \/ c = [n |-> 0] /\ \E b \in 1..32 : c' = [n |-> b]
        \/ "n" \in DOMAIN c /\ c.n > 0 /\ \E x \in LET s == SetToSeq(Cases) IN {s[i] : i \in {i \in 1..Len(s) : i % 32 = c.n - 1}} : c' = [case |-> x]
Laws == "case" \in DOMAIN c => LET x == c.case IN
  CASE Which = "registries" -> LET w == RegWant(x) IN \A i \in DOMAIN x.ops : x.kind = "ranked" => w.reg[x.ops[i].key] > 0 /\ x.ops[w.reg[x.ops[i].key]].p >= x.ops[i].p
    [] Which = "systems" -> \* adding adapters to what is asked later never changes what is found
         \A s \in {"X", "Y", "Z"} : LET w == ToArt([x EXCEPT !.B1 = <<>>, !.B2 = <<>>], "S", s) IN w = {"refused"} \/ w = ToArt(x, "S", s)
    [] Which = "dispatch" -> \* the order does not matter, something always fits, exact matches are used
         \A q \in Firsts \X Seconds : LET p == Picks(Rng(x.impls), q) IN p # {} /\ (q \in Rng(x.impls) => p = {q})
    [] OTHER -> TRUE
Emit == "case" \notin DOMAIN c \/ PrintT("@C" \o ToJson([c |-> c.case, want |-> Want(c.case)]))
=============================================================================
