-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* The namespace of a graph: a write-once tree from dotted paths to leaves *)
(* that is open while the graph is being defined and frozen otherwise.     *)
(*                                                                         *)
(* tree : partial function from paths (sequences of keys) to a leaf        *)
(*        identity (a positive number) or NS (0) for a namespace node.     *)
(* open : whether assignments are accepted.                                *)
(* act  : the last operation, its arguments and its result (what the       *)
(*        conformance driver replays on the code).                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS Keys,      \* usable key names
          Leaves,    \* identities of leaf values, 1..n
          Depth      \* longest path

VARIABLES tree, open, act
vars == <<tree, open, act>>

NS == 0
Paths == UNION {[1..n -> Keys] : n \in 1..Depth}
Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)}
Children(t, p) == {q[Len(q)] : q \in {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}}
Node(t, p) == IF t[p] = NS THEN [ns |-> Children(t, p)] ELSE [leaf |-> t[p]]
Put(t, q, v) == [x \in DOMAIN t \cup {q} |-> IF x = q THEN v ELSE t[x]]

Refused == "refused"                         \* any error
Ok(v) == v

(* Values that may be assigned: a leaf, something convertible to a leaf,   *)
(* something that is not, or a mapping (a sequence of key/value pairs).    *)
Simple == [kind : {"leaf", "cast"}, id : Leaves] \cup {[kind |-> "bad", id |-> 0]}
Mappings == {<<>>}
   \cup {<< <<k, v>> >> : k \in Keys, v \in Simple}
   \cup {<< <<k1, v1>>, <<k2, v2>> >> : <<k1, k2>> \in {kk \in Keys \X Keys : kk[1] # kk[2]},
                                        v1 \in {v \in Simple : v.kind = "leaf"},
                                        v2 \in {v \in Simple : v.kind # "cast"}}

(* Walking down to the parent of p creates missing namespaces while open   *)
(* and stops at a leaf.                                                    *)
Walk(t, p) ==
  LET leafs == {h \in Prefixes(p) : h \in DOMAIN t /\ t[h] # NS}
      stop  == IF leafs = {} THEN Len(p) ELSE Min({Len(h) : h \in leafs})
      made  == {h \in Prefixes(p) : Len(h) < stop /\ h \notin DOMAIN t}
  IN [ok   |-> leafs = {},
      tree |-> [x \in DOMAIN t \cup made |-> IF x \in DOMAIN t THEN t[x] ELSE NS]]
Reachable(t, p) == \A h \in Prefixes(p) : h \in DOMAIN t /\ t[h] = NS

\* Assign one simple value below an existing namespace (or the root, <<>>).
PutSimple(t, p, v) ==
  IF p \in DOMAIN t \/ v.kind = "bad" THEN [ok |-> FALSE, tree |-> t]
  ELSE [ok |-> TRUE, tree |-> Put(t, p, v.id)]

RECURSIVE PutAll(_, _, _)
PutAll(t, p, m) ==
  IF m = <<>> THEN [ok |-> TRUE, tree |-> t]
  ELSE LET one == PutSimple(t, Append(p, Head(m)[1]), Head(m)[2])
       IN IF one.ok THEN PutAll(one.tree, p, Tail(m)) ELSE one

SetSimple(t, p, v) ==
  LET w == Walk(t, p) IN IF w.ok THEN PutSimple(w.tree, p, v) ELSE [ok |-> FALSE, tree |-> w.tree]

SetMapping(t, p, m) ==
  LET w == Walk(t, p) IN
  IF ~w.ok THEN [ok |-> FALSE, tree |-> w.tree]
  ELSE IF p \in DOMAIN w.tree
       THEN IF w.tree[p] = NS THEN PutAll(w.tree, p, m)           \* merge into the namespace
            ELSE [ok |-> FALSE, tree |-> w.tree]
       ELSE LET r == PutAll(Put(w.tree, p, NS), p, m)               \* all or nothing
            IN IF r.ok THEN r ELSE [ok |-> FALSE, tree |-> w.tree]

Via == {"dotted", "attr", "item"}
Result(r) == IF r.ok THEN "done" ELSE Refused

Init == tree = <<>> /\ open = FALSE /\ act = [op |-> "init"]

Freeze == /\ open /\ open' = FALSE /\ UNCHANGED tree
          /\ act' = [op |-> "freeze", res |-> "done"]
Thaw == /\ ~open /\ open' = TRUE /\ UNCHANGED tree
        /\ act' = [op |-> "thaw", res |-> "done"]

DoSet(via, p, v) ==
  LET r == IF open THEN SetSimple(tree, p, v) ELSE [ok |-> FALSE, tree |-> tree] IN
  /\ tree' = r.tree /\ UNCHANGED open
  /\ act' = [op |-> "set", via |-> via, path |-> p, value |-> v, res |-> Result(r)]

DoSetMapping(via, p, m) ==
  /\ Len(p) < Depth
  /\ LET r == IF open THEN SetMapping(tree, p, m) ELSE [ok |-> FALSE, tree |-> tree] IN
     /\ tree' = r.tree /\ UNCHANGED open
     /\ act' = [op |-> "setmap", via |-> via, path |-> p, mapping |-> m, res |-> Result(r)]

\* Names with a leading underscore are never accepted.
DoSetPrivate(p) ==
  LET r == IF open THEN Walk(tree, p) ELSE [ok |-> FALSE, tree |-> tree] IN
  /\ tree' = r.tree /\ UNCHANGED open
  /\ act' = [op |-> "setprivate", path |-> p, res |-> Refused]

DoGet(via, p) ==
  LET w == Walk(tree, p)
      t == IF ~open \/ ~w.ok THEN IF open THEN w.tree ELSE tree
           ELSE IF p \in DOMAIN w.tree THEN w.tree ELSE Put(w.tree, p, NS)
      found == p \in DOMAIN t /\ Reachable(t, p)
  IN /\ tree' = t /\ UNCHANGED open
     /\ act' = [op |-> "get", via |-> via, path |-> p,
                res |-> IF found THEN Node(t, p) ELSE [missing |-> TRUE]]

DoContains(p) == /\ UNCHANGED <<tree, open>>
                 /\ act' = [op |-> "contains", path |-> p, res |-> p \in DOMAIN tree]

\* A namespace can be hashed (used as a value) only while it is frozen.
DoHash == /\ UNCHANGED <<tree, open>>
          /\ act' = [op |-> "hash", res |-> IF open THEN Refused ELSE "done"]

Next == \/ Freeze \/ Thaw \/ DoHash
        \/ \E p \in Paths : \/ \E via \in Via : \/ \E v \in Simple : DoSet(via, p, v)
                                                \/ DoGet(via, p)
                            \/ \E via \in {"dotted", "attr"}, m \in Mappings : DoSetMapping(via, p, m)
                            \/ DoContains(p)
                            \/ DoSetPrivate(p)
Spec == Init /\ [][Next]_vars
View == <<tree, open>>

---------------------------------------------------------------------------
TypeOK == /\ DOMAIN tree \subseteq Paths /\ \A p \in DOMAIN tree : tree[p] \in Leaves \cup {NS}
\* It is a tree: everything lies below namespaces.
TreeShaped == \A p \in DOMAIN tree : Reachable(tree, p)
\* Written once, frozen while closed, membership and hashing are pure.
WriteOnce == [][\A p \in DOMAIN tree : p \in DOMAIN tree' /\ tree'[p] = tree[p]]_tree
Frozen == [][~open => tree' = tree]_vars
Pure == [][act'.op \in {"contains", "hash", "freeze", "thaw"} => tree' = tree]_vars
\* A refused plain assignment never adds a leaf.
LeavesOf(t) == {p \in DOMAIN t : t[p] # NS}
RefusedAddsNothing == [][(act'.op \in {"get", "contains"} \/ (act'.op \in {"set", "setprivate"} /\ act'.res = Refused))
                            => LeavesOf(tree') = LeavesOf(tree)]_vars

Emit == PrintT("@E" \o ToJson([s |-> [o |-> open, t |-> {<<p, tree[p]>> : p \in DOMAIN tree}],
                               a |-> act',
                               t |-> [o |-> open', t |-> {<<p, tree'[p]>> : p \in DOMAIN tree'}]]))
=============================================================================
