-------------------------------- MODULE Hints --------------------------------
(* Type hints, the values they stand for, and which hints are surely subtypes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

\* Values: [c: class] with contents, classes as Python's (bool is an int).
V(c, x) == [c |-> c, x |-> x]
D(p) == [c |-> "dict", p |-> p]        \* key, value pairs
At(c, n) == [c |-> c, at |-> n]
Super(c) ==        \* classes an instance of c is an instance of
  CASE c = "bool" -> {"bool", "int"} [] c = "datetime" -> {"datetime", "date"} [] c = "B" -> {"B", "A"} [] c = "C" -> {"C", "B", "A"}
    [] c = "str" -> {"str", "Sequence", "Iterable"} [] c = "bytes" -> {"bytes", "Sequence", "Iterable"}
    [] c = "list" -> {"list", "Sequence", "Iterable"} [] c = "tuple" -> {"tuple", "Sequence", "Iterable"}
    [] c = "MyTuple" -> {"MyTuple", "tuple", "Sequence", "Iterable"}
    [] c = "dict" -> {"dict", "Mapping", "Iterable"} [] c \in {"set", "frozenset"} -> {c, "Iterable"}
    [] c = "Mapping" -> {"Mapping", "Iterable"} [] c = "Sequence" -> {"Sequence", "Iterable"}
    [] OTHER -> {c}
IsSub(c, d) == d = "object" \/ d \in Super(c)

Atoms == {At("int", "0"), At("int", "1"), At("bool", "1"), At("str", "a"), At("str", "b"), At("float", "0"), At("bytes", "0"), At("NoneType", "0"),
          At("date", "0"), At("datetime", "0"), At("A", "0"), At("B", "0"), At("C", "0"), At("type", "0")}
Few == {At("int", "0"), At("bool", "1"), At("str", "a"), At("NoneType", "0"), At("B", "0")}
Row == {<<>>} \cup {<<a>> : a \in Few} \cup {<<a, b>> : a, b \in {At("int", "0"), At("str", "a"), At("bool", "1")}} \cup {<<At("str", "b")>>, <<At("A", "0")>>, <<At("C", "0")>>, <<At("int", "1"), At("NoneType", "0")>>}
\* typed dicts are dicts from strings; mappings are sequences of pairs here
Pairs == {<<>>} \cup {<< <<k, v>> >> : k \in {At("str", "a"), At("int", "0"), At("str", "x")}, v \in Few \ {At("B", "0")}} \cup
         {<< <<At("str", "x"), v>>, <<At("str", "y"), w>> >> : v \in {At("int", "0"), At("str", "a"), At("bool", "1")}, w \in {At("int", "0"), At("str", "a"), At("NoneType", "0")}}
Flat == {V(c, r) : c \in {"list", "tuple", "MyTuple"}, r \in Row} \cup {V(c, r) : c \in {"set", "frozenset"}, r \in {r \in Row : Len(r) < 2}} \cup {D(p) : p \in Pairs}
Inner == {V(c, r) : c \in {"list", "tuple", "MyTuple"}, r \in {<<>>, <<At("int", "0")>>, <<At("str", "a")>>, <<At("bool", "1")>>, <<At("NoneType", "0")>>, <<At("int", "0"), At("int", "0")>>}}
         \cup {D(p) : p \in {<<>>, << <<At("str", "x"), At("int", "0")>> >>, << <<At("str", "x"), At("str", "a")>> >>}}
Deep == {V(c, <<i>>) : c \in {"list", "tuple"}, i \in Inner} \cup {D(<< <<At("str", "a"), i>> >>) : i \in Inner}
Values == Atoms \cup Flat \cup Deep

\* Hints: [h: kind, ...]
Cls(c) == [h |-> "class", c |-> c]
AnyH == [h |-> "any"]
Of(c, args) == [h |-> "of", c |-> c, args |-> args]        \* list[int], Mapping[str, int], ...
Tup(args) == [h |-> "tuple", args |-> args]                \* tuple[int, str]
Tups(e) == [h |-> "tuples", e |-> e]                       \* tuple[int, ...]
Un(hs) == [h |-> "union", hs |-> hs]
Lit(vs) == [h |-> "literal", vs |-> vs]
Ann(e) == [h |-> "annotated", e |-> e]
Var(b) == [h |-> "var", b |-> b]                            \* TypeVar bound to b
TD(n, fs) == [h |-> "td", n |-> n, fs |-> fs]               \* TypedDict: field name -> hint
Rng(s) == {s[i] : i \in DOMAIN s}

RECURSIVE In(_, _)
In(v, t) ==
  CASE t.h = "any" -> TRUE
    [] t.h = "class" -> IsSub(v.c, t.c)
    [] t.h = "of" -> IsSub(v.c, t.c) /\ (IF t.c \in {"dict", "Mapping"} THEN \A p \in Rng(v.p) : In(p[1], t.args[1]) /\ In(p[2], t.args[2])
                                         ELSE IF v.c = "dict" THEN \A p \in Rng(v.p) : In(p[1], t.args[1])
                                         ELSE IF v.c \in {"str", "bytes"} THEN In(IF v.c = "str" THEN v ELSE At("int", "0"), t.args[1])
                                         ELSE \A e \in Rng(v.x) : In(e, t.args[1]))
    [] t.h = "tuple" -> IsSub(v.c, "tuple") /\ Len(v.x) = Len(t.args) /\ \A i \in DOMAIN v.x : In(v.x[i], t.args[i])
    [] t.h = "tuples" -> IsSub(v.c, "tuple") /\ \A e \in Rng(v.x) : In(e, t.e)
    [] t.h = "union" -> \E u \in t.hs : In(v, u)
    [] t.h = "literal" -> v \in t.vs
    [] t.h \in {"annotated"} -> In(v, t.e)
    [] t.h = "var" -> In(v, t.b)
    [] t.h = "td" -> v.c = "dict" /\ \A n \in DOMAIN t.fs : \E p \in Rng(v.p) : p[1] = At("str", n) /\ In(p[2], t.fs[n])

\* Certain subtypes; what the code may or may not see is left open.
RECURSIVE Sub(_, _)
Sub(s, t) ==
  IF s.h = "annotated" THEN Sub(s.e, t)
  ELSE IF t.h = "annotated" THEN Sub(s, t.e)
  ELSE IF s = t THEN TRUE
  ELSE IF t.h = "any" THEN TRUE
  ELSE IF t.h = "var" THEN Sub(s, t.b)
  ELSE IF s.h = "var" THEN s.b.h # "union" /\ Sub(s.b, t)
  ELSE IF s.h = "any" THEN FALSE
  ELSE IF s.h = "union" THEN t.h = "union" /\ \A u \in s.hs : Sub(u, t)
  ELSE IF t.h = "union" THEN \E u \in t.hs : Sub(s, u)
  ELSE IF s.h = "literal" THEN t.h = "literal" /\ s.vs \subseteq t.vs
  ELSE IF t.h = "literal" THEN FALSE
  ELSE IF t.h = "class" THEN
    CASE s.h = "class" -> IsSub(s.c, t.c) [] s.h = "of" -> IsSub(s.c, t.c) [] s.h \in {"tuple", "tuples"} -> IsSub("tuple", t.c)
      [] s.h = "td" -> t.c \in {"dict", "object"} [] OTHER -> FALSE
  ELSE IF t.h = "td" THEN s.h = "td" /\ \A n \in DOMAIN t.fs : n \in DOMAIN s.fs /\ Sub(s.fs[n], t.fs[n])
  ELSE IF t.h = "of" THEN
    CASE s.h = "of" -> IsSub(s.c, t.c) /\ Len(s.args) = Len(t.args) /\ \A i \in DOMAIN s.args : Sub(s.args[i], t.args[i])
      [] s.h = "tuple" -> IsSub("tuple", t.c) /\ Len(s.args) = 1 /\ Len(t.args) = 1 /\ Sub(s.args[1], t.args[1])
      [] OTHER -> FALSE
  ELSE IF t.h = "tuple" THEN s.h = "tuple" /\ Len(s.args) = Len(t.args) /\ \A i \in DOMAIN s.args : Sub(s.args[i], t.args[i])
  ELSE IF t.h = "tuples" THEN s.h = "tuples" /\ Sub(s.e, t.e)
  ELSE FALSE

CONSTANT Deeper
NoneH == Cls("NoneType")
IntH == Cls("int")
StrH == Cls("str")
Scalars == {Cls(c) : c \in {"int", "bool", "str", "float", "bytes", "NoneType", "date", "datetime", "A", "B", "C", "object", "type",
                            "list", "tuple", "MyTuple", "dict", "set", "frozenset", "Sequence", "Mapping", "Iterable"}} \cup {AnyH}
Lits == {Lit(vs) : vs \in {{At("str", "a")}, {At("str", "a"), At("str", "b")}, {At("int", "0")}, {At("int", "1")}, {At("bool", "1")}, {At("int", "0"), At("bool", "1")}}}
Unions == {Un(hs) : hs \in {{IntH, NoneH}, {StrH, NoneH}, {IntH, StrH}, {IntH, StrH, NoneH}, {Cls("bool"), NoneH}, {Cls("A"), IntH}, {Cls("C"), Cls("bool")},
                            {Lit({At("str", "a")}), NoneH}, {Lit({At("str", "a"), At("str", "b")}), NoneH, IntH}, {Cls("list"), NoneH}}}
TDs == {TD("X", [x |-> IntH]), TD("X2", [x |-> Cls("bool")]), TD("XY", [x |-> IntH, y |-> StrH]), TD("XN", [x |-> Un({IntH, NoneH})]), TD("Y", [y |-> StrH]), TD("XX", [x |-> IntH]),
        TD("XY2", [x |-> IntH, y |-> IntH]), TD("XYB", [x |-> Cls("bool"), y |-> StrH])}
Basic == {IntH, Cls("bool"), StrH, NoneH, Cls("A"), Cls("B"), AnyH, Un({IntH, NoneH}), Un({IntH, StrH, NoneH}), Lit({At("str", "a")}), TD("X", [x |-> IntH]), TD("X2", [x |-> Cls("bool")]), Cls("tuple"), Cls("MyTuple")}
Containers(E) == {Of(c, <<e>>) : c \in {"list", "set", "Sequence", "Iterable"}, e \in E} \cup {Tup(<<e>>) : e \in E} \cup {Tups(e) : e \in E}
Seconds == {Of(c, <<k, e>>) : c \in {"dict", "Mapping"}, k \in {StrH, IntH, AnyH}, e \in {IntH, Cls("bool"), StrH, AnyH, Un({IntH, NoneH}), TD("X", [x |-> IntH])}}
           \cup {Tup(<<a, b>>) : a, b \in {IntH, StrH, Cls("bool"), AnyH}}
Wrapped == {Ann(e) : e \in {IntH, Cls("A"), StrH, AnyH, Un({IntH, NoneH}), Lit({At("str", "a")}), Of("list", <<IntH>>), TD("X", [x |-> IntH])}}
           \cup {Var(b) : b \in {AnyH, IntH, Cls("A"), Cls("B"), Cls("tuple"), Un({IntH, NoneH}), Lit({At("str", "a")}), Of("list", <<IntH>>)}}
Nested == Containers({Of("list", <<IntH>>), Of("list", <<Cls("bool")>>), Tup(<<IntH>>), Tup(<<StrH>>), Tups(IntH), Of("dict", <<StrH, IntH>>), Ann(IntH), Var(IntH), Cls("list")})
          \cup {Of("list", <<NoneH>>), Tup(<<IntH, NoneH>>), Of("dict", <<StrH, NoneH>>), Ann(Of("list", <<NoneH>>))}
          \cup {Un({Of("list", <<IntH>>), NoneH}), Un({Tup(<<IntH>>), Tups(StrH)}), Un({Ann(IntH), StrH}), Of("dict", <<StrH, Of("list", <<IntH>>)>>), Of("Mapping", <<StrH, Of("Sequence", <<IntH>>)>>),
                TD("D", [x |-> Of("list", <<IntH>>)]), TD("DT", [x |-> TD("X", [x |-> IntH])]), TD("DT2", [x |-> TD("X2", [x |-> Cls("bool")])])}
Level1 == Containers(Basic) \cup Seconds
Deepest == Containers(Level1) \cup {Of("dict", <<StrH, e>>) : e \in Level1} \cup {Of("Mapping", <<StrH, e>>) : e \in Level1}
           \cup {Un({e, NoneH}) : e \in Level1} \cup {Un({e, IntH, StrH}) : e \in Level1}
           \cup {TD("E", [x |-> e]) : e \in Level1} \cup {Tup(<<e, IntH>>) : e \in Level1}
Hints == (IF Deeper THEN Deepest ELSE {}) \cup Scalars \cup Lits \cup Unions \cup TDs \cup Containers(IF Deeper THEN Basic ELSE {IntH, Cls("bool"), StrH, AnyH, Un({IntH, NoneH}), Lit({At("str", "a")}), TD("X", [x |-> IntH])})
         \cup Seconds \cup Wrapped \cup Nested

\* TLC does not keep values of constants defined by recursion, so the tables are part of the state
\* (of numbered hints and values, so that sets of them are cheap).
VARIABLES c, hints, den, subs
HN == DOMAIN hints
Init == /\ c = 0
        /\ hints = SetToSeq(Hints)
        /\ \E vs \in {SetToSeq(Values)} : den = [t \in HN |-> {v \in DOMAIN vs : In(vs[v], hints[t])}]
        /\ subs = [t \in HN |-> {u \in HN : Sub(hints[t], hints[u])}]
Next == c = 0 /\ c' \in HN /\ UNCHANGED <<hints, den, subs>>
Optional(t) == t.h = "union" /\ NoneH \in t.hs
Base(t) == IF t.h = "annotated" THEN t.e ELSE t
Must(t) == subs[t]
Bigger(t) == {u \in HN : den[t] \subseteq den[u]}
Laws == c # 0 => LET big == Bigger(c) IN /\ c \in Must(c) /\ Must(c) \subseteq big /\ \A u \in Must(c) : Must(u) \subseteq big
Emit == c = 0 \/ PrintT("@C" \o ToJson([n |-> c, hint |-> hints[c], optional |-> Optional(hints[c]), union |-> hints[c].h = "union", base |-> Base(hints[c]), must |-> Must(c), mustnot |-> HN \ Bigger(c)]))

(* ---- picking something out of the extras of an annotated hint ---- *)
ItemOf == {"a", "b", "other", "A", "B", "Other", "listA", "five"}     \* instances a, b; classes A, B(A)
Found(w, kind, m) == {i \in DOMAIN m : m[i] \in CASE kind = "object" /\ w = "A" -> {"a", "b"} [] kind = "object" /\ w = "B" -> {"b"}
                                                  [] kind = "class" /\ w = "A" -> {"A", "B"} [] kind = "class" /\ w = "B" -> {"B"}}
ItemInit == c = [m |-> <<>>, k |-> "object", w |-> "A"] /\ hints = 0 /\ den = 0 /\ subs = 0
ItemNext == Len(c.m) < 3 /\ (\E x \in ItemOf, k \in {"object", "class"}, w \in {"A", "B"} : c' = [m |-> Append(c.m, x), k |-> k, w |-> w]) /\ UNCHANGED <<hints, den, subs>>
ItemWant == LET f == Found(c.w, c.k, c.m) IN IF f = {} THEN "none" ELSE IF Cardinality(f) = 1 THEN c.m[CHOOSE i \in f : TRUE] ELSE "error"
ItemEmit == PrintT("@C" \o ToJson([c |-> c, want |-> ItemWant]))
=============================================================================
