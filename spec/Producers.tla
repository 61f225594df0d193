------------------------------- MODULE Producers -------------------------------
(* Definitions of producers: which are well-formed, and what they then declare.  *)
(* Every definition that differs from a well-formed one in at most Changes ways. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Changes
Rng(s) == {s[i] : i \in DOMAIN s}

(* ---- the parts of a definition ---- *)
\* form: a class, a decorated function, the child of a complete producer (field x: AInt, build(x) -> AInt), or all of it in an abstract parent
Forms == {"class", "decorator", "child", "abstract parent"}
\* x, y: fields. AInt, BInt hold Int64s, APart is partitioned by k, Plain holds anything
Arts == {"AInt", "BInt", "Plain", "APart"}
FieldKinds == Arts \cup {"absent", "optional", "default", "not an artifact", "classvar", "union", "annotated"}
MethodKinds == {"static", "class", "instance", "missing"}
\* bx, by: the parameters of build. hint: "badhint" is str, "type" and "class" name what is meant anyway
ParamKinds == {"absent", "ok", "kwonly", "posonly", "var", "varkw", "default", "kwdefault", "nohint", "badhint", "class", "otherclass", "subclass", "superclass", "type", "badtype", "badview", "twoclasses", "artifact"}
\* ret: the outputs. part, part2: partitioned by k; part3: by k of another type; part4: by j
Outs == {"int", "str", "AInt", "null", "part", "part2", "part3", "part4"}
BadOuts == {"badA", "unview", "classonly", "badtype", "twoviews"}
Rets == {<<"missing">>, <<"None">>} \cup {<<o>> : o \in Outs \cup BadOuts} \cup {<<o, p>> : o \in {"AInt", "part", "str"}, p \in Outs \cup {"badA"}} \cup {<<"AInt", "int", "AInt">>, <<"part", "part2", "part4">>, <<"part", "part2", "part">>, <<"AInt", "str", "badtype">>}
Vals == {"none", "exact", "class exact", "nohint", "any args", "args", "args of first", "wide", "bad", "bad last", "few", "many", "default", "kwonly", "posonly", "kwargs", "swapped"}
\* opt: the version and annotations set on the definition; again: the decorator has decorated something else before
Opts == {"none", "version", "annotations", "both", "again"}
MapParams == {"absent", "ok", "kwonly", "posonly", "var", "default", "nohint", "badhint"}
Dom == [form |-> Forms, x |-> FieldKinds, y |-> FieldKinds, bk |-> MethodKinds, bx |-> ParamKinds, by |-> ParamKinds, bz |-> {"absent", "ok"}, ret |-> Rets, val |-> Vals,
        mk |-> MethodKinds, mx |-> MapParams, my |-> MapParams, mz |-> {"absent", "ok"}, opt |-> Opts]
Features == DOMAIN Dom
Base1 == [form |-> "class", x |-> "AInt", y |-> "absent", bk |-> "static", bx |-> "ok", by |-> "absent", bz |-> "absent", ret |-> <<"AInt">>, val |-> "none", mk |-> "missing", mx |-> "absent", my |-> "absent", mz |-> "absent", opt |-> "none"]
Base2 == [Base1 EXCEPT !.y = "Plain", !.bk = "class", !.by = "ok", !.ret = <<"AInt", "str">>, !.val = "exact"]
Base3 == [Base1 EXCEPT !.x = "APart", !.y = "BInt", !.by = "ok", !.ret = <<"part">>, !.mk = "static", !.mx = "ok", !.my = "ok"]
Base4 == [Base1 EXCEPT !.form = "decorator", !.y = "BInt", !.by = "class", !.val = "args of first", !.ret = <<"AInt", "int">>, !.bx = "class"]
Base5 == [Base1 EXCEPT !.x = "APart", !.y = "APart", !.ret = <<"part", "part2">>, !.mk = "class", !.mx = "kwonly", !.my = "ok", !.val = "any args"]
Base6 == [Base1 EXCEPT !.form = "child", !.x = "absent", !.y = "BInt", !.by = "ok"]
Bases == {Base1, Base2, Base3, Base4, Base5, Base6}
\* Which definitions make sense to write down
Sensible(c) ==
  /\ c.mk = "missing" => c.mx = "absent" /\ c.my = "absent" /\ c.mz = "absent"
  /\ c.bk = "missing" => c.bx = "absent" /\ c.by = "absent" /\ c.bz = "absent" /\ c.ret = <<"AInt">>
  /\ c.form = "child" => c.bk # "missing" /\ c.x # "classvar"
  /\ c.form = "decorator" => /\ c.bk = "static" /\ c.mk \in {"static", "missing"} /\ c.val # "class exact"
                             /\ c.x \in Arts /\ c.y \in Arts \cup {"absent"} /\ c.bx # "absent" /\ (c.y = "absent" <=> c.by = "absent") /\ c.bz = "absent"
                             /\ \A p \in {c.bx, c.by} : p \notin {"otherclass", "subclass", "superclass", "artifact"}
  /\ c.opt = "again" => c.form = "decorator"
  \* (two parameters that take all there is left cannot be written)
  /\ ~(c.bx = c.by /\ c.bx \in {"var", "varkw"}) /\ ~(c.mx = "var" /\ c.my = "var")

(* ---- what is well-formed ---- *)
FieldOf(c, f) == IF c.form = "child" /\ f = "x" /\ c.x = "absent" THEN "AInt" ELSE IF c[f] = "annotated" THEN "AInt" ELSE c[f]
Fields(c) == {f \in {"x", "y"} : FieldOf(c, f) \notin {"absent", "classvar"}}
BuildOf(c, f) == IF f = "x" THEN c.bx ELSE c.by
MapOf(c, f) == IF f = "x" THEN c.mx ELSE c.my
FieldsOK(c) == \A f \in Fields(c) : FieldOf(c, f) \in Arts
ParamOK(k, p) == p \in {"ok", "kwonly", "class", "type"} \/ (p = "badhint" /\ k = "Plain") \/ (p = "badtype" /\ FALSE)
BuildOK(c) == c.bk \in {"static", "class"} /\ c.bz = "absent" /\ \A f \in {"x", "y"} : BuildOf(c, f) # "absent" => f \in Fields(c) /\ ParamOK(FieldOf(c, f), BuildOf(c, f))
Scheme(o) == CASE o \in {"part", "part2"} -> "k Int64" [] o = "part3" -> "k Int32" [] o = "part4" -> "j Int64" [] OTHER -> "none"
RetOK(c) == Rng(c.ret) \subseteq Outs /\ \A i, j \in DOMAIN c.ret : Scheme(c.ret[i]) = Scheme(c.ret[j])
Hint(o) == CASE o \in {"int", "AInt"} -> "int" [] o = "str" -> "str" [] o = "null" -> "None" [] OTHER -> "list[dict]"
ValOK(c) ==
  CASE c.val \in {"none", "exact", "class exact", "nohint", "any args", "args", "wide", "posonly"} -> TRUE
    [] c.val = "args of first" -> \A i \in DOMAIN c.ret : Hint(c.ret[i]) = Hint(c.ret[1])
    [] c.val = "swapped" -> \A i \in DOMAIN c.ret : Hint(c.ret[i]) = Hint(c.ret[Len(c.ret) + 1 - i])
    [] OTHER -> FALSE
MapOK(c) == IF c.mk = "missing" THEN \A i \in DOMAIN c.ret : Scheme(c.ret[i]) = "none"
            ELSE c.mk \in {"static", "class"} /\ c.mz = "absent" /\ \A f \in {"x", "y"} : MapOf(c, f) # "absent" => f \in Fields(c) /\ MapOf(c, f) \in {"ok", "kwonly"}
AllUsed(c) == \A f \in Fields(c) : BuildOf(c, f) # "absent" \/ MapOf(c, f) # "absent"
WellFormed(c) == FieldsOK(c) /\ BuildOK(c) /\ RetOK(c) /\ ValOK(c) /\ MapOK(c) /\ AllUsed(c)

OutClass(o) == CASE o \in {"int", "str"} -> "Artifact" [] o = "AInt" -> "AInt" [] o = "null" -> "ANull" [] o = "part" -> "APart" [] o = "part2" -> "APart2" [] o = "part3" -> "APart3" [] o = "part4" -> "APart4"
OutType(o) == CASE o \in {"int", "AInt"} -> "Int64" [] o = "str" -> "String" [] o = "null" -> "Null" [] OTHER -> "Collection"
Want(c) == IF ~WellFormed(c) THEN [res |-> "refused"]
           ELSE [res |-> "ok", inputs |-> {<<f, FieldOf(c, f)>> : f \in Fields(c)}, version |-> c.opt \in {"version", "both"}, annotations |-> c.opt \in {"annotations", "both"}, outs |-> [i \in DOMAIN c.ret |-> <<OutClass(c.ret[i]), OutType(c.ret[i])>>]]

VARIABLES d, changed
Order == <<"form", "x", "y", "bk", "bx", "by", "bz", "ret", "val", "mk", "mx", "my", "mz", "opt">>
Init == d \in Bases /\ changed = <<>>
Next == /\ Len(changed) < Changes
        /\ \E i \in DOMAIN Order : /\ \A j \in DOMAIN changed : changed[j] < i
                                   /\ \E v \in Dom[Order[i]] \ {d[Order[i]]} : d' = [d EXCEPT ![Order[i]] = v]
                                   /\ changed' = Append(changed, i)
Laws == /\ changed = <<>> => WellFormed(d)
        \* the forms agree: what can be decorated is as good a class, or in an abstract parent
        /\ d.form = "decorator" /\ Sensible(d) => (WellFormed(d) <=> WellFormed([d EXCEPT !.form = "class"]))
        /\ d.form = "class" => (WellFormed(d) <=> WellFormed([d EXCEPT !.form = "abstract parent"]))
Emit == ~Sensible(d) \/ PrintT("@C" \o ToJson([c |-> d, want |-> Want(d)]))
=============================================================================
