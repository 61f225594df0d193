--------------------------------- MODULE Views ---------------------------------
(* Views: resolved from type hints and what is annotated on them, and the        *)
(* artifacts they may read or write.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Which, Deeper
None == "-"

(* ---- resolving hints ---- *)
\* X and F are foreign classes, with views of their own (as have lists of strings): Own (types Int64 and String are an X), Inst (Float64 is the instance f of F),
\* and Low (like Own, of lower priority and with artifact class AInt unless told)
Roots == {"int", "str", "bool", "float", "list", "list[int]", "list[bool]", "None", "NoneType", "int|None", "Any", "X", "F", "list[str]"} \cup (IF Deeper THEN {"date", "datetime", "dict[str,int]", "list[list[int]]", "int|str", "XSub"} ELSE {})
Types == {"Int64", "Int64?", "Boolean", "String", "Float64", "Null", "List(Int64)", "List(Boolean)", "List(String)"} \cup (IF Deeper THEN {"Int32", "Date", "Timestamp", "Map(String,Int64)", "List(List(Int64))", "List(Int64?)"} ELSE {})
ViewsOf == [Int |-> "int", List |-> "list", Own |-> "X", Low |-> "X", Inst |-> "F", Null |-> "None"]
ArtTypes == [Plain |-> None, AInt |-> "Int64", AList |-> "List(Int64)", Artifact |-> None]
Dup == {"", "views", "types", "classes"}      \* two of something
Hints == {h \in [root : Roots, view : {None} \cup DOMAIN ViewsOf, type : {None} \cup Types, class : {None, "Plain", "AInt", "AList"}, dup : Dup] :
            /\ h.dup = "views" => h.view # None
            /\ h.dup = "types" => h.type # None
            /\ h.dup = "classes" => h.class # None}
Registered(r) == CASE r = "int" -> "Int" [] r = "str" -> "Str" [] r = "float" -> "Float" [] r \in {"list", "list[int]", "list[bool]", "list[list[int]]"} -> "List" [] r \in {"None", "NoneType"} -> "Null" [] r = "list[str]" -> "Strs"
                   [] r = "X" -> "Own" [] r = "F" -> "Inst" [] r = "date" -> "Date" [] r = "datetime" -> "Datetime" [] r = "dict[str,int]" -> "Dict" [] OTHER -> None
Inferred(r) == CASE r = "int" -> "Int64" [] r = "str" -> "String" [] r = "bool" -> "Boolean" [] r = "float" -> "Float64" [] r = "list[int]" -> "List(Int64)" [] r = "list[bool]" -> "List(Boolean)" [] r = "list[str]" -> "List(String)"
                 [] r \in {"None", "NoneType"} -> "Null" [] r = "int|None" -> "Int64?" [] r = "date" -> "Date" [] r = "datetime" -> "Timestamp" [] r = "dict[str,int]" -> "Map(String,Int64)" [] r = "list[list[int]]" -> "List(List(Int64))" [] OTHER -> None
\* What a view's type system makes of a type
Repr(v, t) == IF v \in {"Own", "Low"} THEN IF t \in {"Int64", "Int64?", "String"} THEN "X" ELSE None
              ELSE IF v = "Inst" THEN IF t = "Float64" THEN "f" ELSE None
              ELSE CASE t = "Int64" -> "int" [] t = "Int32" -> "int" [] t = "Int64?" -> "int|None" [] t = "Boolean" -> "bool" [] t = "String" -> "str" [] t = "Float64" -> "float" [] t = "Null" -> "None" [] t = "List(Int64)" -> "list[int]" [] t = "List(Boolean)" -> "list[bool]" [] t = "List(String)" -> "list[str]"
                     [] t = "Date" -> "date" [] t = "Timestamp" -> "datetime" [] t = "Map(String,Int64)" -> "dict[str,int]" [] t = "List(List(Int64))" -> "list[list[int]]" [] t = "List(Int64?)" -> "list[int|None]"
Within(s, r) == \/ r = "Any" \/ s = r
                \/ <<s, r>> \in {<<"bool", "int">>, <<"bool", "int|None">>, <<"int", "int|None">>, <<"None", "int|None">>, <<"None", "NoneType">>, <<"list[int]", "list">>, <<"list[bool]", "list">>, <<"list[str]", "list">>, <<"list[bool]", "list[int]">>, <<"f", "F">>,
                                 <<"datetime", "date">>, <<"list[list[int]]", "list">>, <<"list[int|None]", "list">>, <<"int", "int|str">>, <<"str", "int|str">>, <<"bool", "int|str">>}
Resolve(h) ==
  LET v == IF h.view # None THEN h.view ELSE Registered(h.root)
      a == IF h.class # None THEN h.class ELSE IF v = "Low" THEN "AInt" ELSE "Artifact"
      t == IF h.type # None THEN h.type ELSE IF ArtTypes[a] # None THEN ArtTypes[a] ELSE Inferred(h.root)
  IN IF h.dup # "" \/ v = None \/ t = None THEN [res |-> "refused"]
     ELSE IF ArtTypes[a] \notin {None, t} \/ Repr(v, t) = None THEN [res |-> "refused"]
     ELSE IF ~Within(Repr(v, t), h.root) THEN [res |-> "refused"]
     ELSE [res |-> "ok", view |-> v, class |-> a, type |-> t]

(* ---- views and artifacts ---- *)
\* Sub is a Plain; formats and storages may be subclasses. Readers and writers besides the usual ones:
\*   reader of Strings in JSON files as Own; writer of Fs in pickle files for Inst;
\*   writer of ints in Other files; writer of anything in JSON stores for Int
VClass == {"Artifact", "Plain", "Sub", "AInt"}
AClass == {"Artifact", "Plain", "Sub", "AInt"}
ATypes == {"Int64", "String", "Null"} \cup (IF Deeper THEN {"Int64?", "List(Int64)"} ELSE {})
Pairs == {x \in [view : {"Int", "List", "Null", "Own", "Inst"}, vclass : VClass, vtype : ATypes, mode : {"READ", "WRITE", "READWRITE"},
                 class : AClass, type : ATypes, format : {"JSON", "JSONSub", "Pickle", "Other"}, storage : {"Local", "LocalSub", "Literal", "GCS", "Store"}] :
             x.class = "AInt" => x.type = "Int64"}
IsA(c, v) == v = "Artifact" \/ c = v \/ (c = "Sub" /\ v = "Plain")
Builtin(v) == v \in {"Int", "List", "Null"}
Usual(f, s) == (f \in {"JSON", "JSONSub"} /\ s \in {"Local", "LocalSub", "Literal", "GCS"}) \/ (f = "Pickle" /\ s \in {"Local", "LocalSub", "GCS"})
CanRead(v, t, f, s) == (Builtin(v) /\ Usual(f, s)) \/ (v = "Own" /\ t = "String" /\ f \in {"JSON", "JSONSub"} /\ s \in {"Local", "LocalSub"})
CanWrite(v, t, f, s) == (Builtin(v) /\ Usual(f, s)) \/ (v = "Inst" /\ f = "Pickle" /\ s \in {"Local", "LocalSub"})
                        \/ (v = "Int" /\ f = "Other" /\ s \in {"Local", "LocalSub"}) \/ (v = "Int" /\ f \in {"JSON", "JSONSub"} /\ s = "Store")
\* "no view": the view cannot be made
Accepts(x) ==
  IF x.vclass = "AInt" /\ x.vtype # "Int64" THEN [res |-> "no view"]
  ELSE IF IsA(x.class, x.vclass) /\ x.type = x.vtype /\ (x.mode # "WRITE" => CanRead(x.view, x.type, x.format, x.storage)) /\ (x.mode # "READ" => CanWrite(x.view, x.type, x.format, x.storage))
  THEN [res |-> "ok"] ELSE [res |-> "refused"]

Cases == IF Which = "hints" THEN Hints ELSE Pairs
Want(x) == IF Which = "hints" THEN Resolve(x) ELSE Accepts(x)
VARIABLE c
Init == c = [n |-> 0]
Next == \/ c = [n |-> 0] /\ \E b \in 1..32 : c' = [n |-> b]
        \/ "n" \in DOMAIN c /\ c.n > 0 /\ \E x \in LET s == SetToSeq(Cases) IN {s[i] : i \in {i \in 1..Len(s) : i % 32 = c.n - 1}} : c' = [case |-> x]
Laws == "case" \in DOMAIN c => LET x == c.case IN
  IF Which = "hints"
  THEN LET r == Resolve(x) IN r.res = "ok" =>
         /\ x.view # None => r.view = x.view
         /\ x.type # None => r.type = x.type
         /\ x.class # None => r.class = x.class
         \* stating what was found explicitly changes nothing
         /\ Resolve([x EXCEPT !.view = IF r.view \in DOMAIN ViewsOf THEN r.view ELSE None, !.type = r.type, !.class = IF r.class = "Artifact" THEN None ELSE r.class]) = r
  ELSE Accepts([x EXCEPT !.mode = "READWRITE"]).res = "ok" => Accepts(x).res = "ok"
Emit == "case" \notin DOMAIN c \/ PrintT("@C" \o ToJson([c |-> c.case, want |-> Want(c.case)]))
=============================================================================
