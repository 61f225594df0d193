------------------------------- MODULE Lifecycle -------------------------------
(* Graphs being defined by threads: at most one per thread, usable only once    *)
(* closed, and afterwards just like a graph defined in one go.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, GraphIds, Copies
NoGraph == 0
Keys == {"x", "y", "p", "q"}
\* p is produced from x, q from p
Needs(k) == CASE k = "p" -> {"x"} [] k = "q" -> {"p"} [] OTHER -> {}

VARIABLES ctx,     \* thread -> the graph it is defining
          content, \* graph -> assigned keys
          closed,  \* graph -> whether it has been finished and not reopened
          begun    \* graph -> whether its definition was ever opened
vars == <<ctx, content, closed, begun>>
State == [ctx |-> ctx, content |-> content, closed |-> closed, begun |-> begun]

Init == /\ ctx = [t \in Threads |-> NoGraph] /\ content = [g \in GraphIds |-> {}]
        /\ closed = [g \in GraphIds |-> FALSE] /\ begun = [g \in GraphIds |-> FALSE]

Edge(a, c, n, l, b) ==
  /\ PrintT("@E" \o ToJson([s |-> State, a |-> a, t |-> [ctx |-> c, content |-> n, closed |-> l, begun |-> b]]))
  /\ ctx' = c /\ content' = n /\ closed' = l /\ begun' = b
Look(a) == Edge(a, ctx, content, closed, begun)
ElseWhere(t, g) == \E u \in Threads \ {t} : ctx[u] = g

Open(t, g) ==
  /\ ~ElseWhere(t, g)
  /\ IF ctx[t] # NoGraph THEN Look([op |-> "open", t |-> t, g |-> g, res |-> FALSE])
     ELSE Edge([op |-> "open", t |-> t, g |-> g, res |-> TRUE], [ctx EXCEPT ![t] = g], content,
               [closed EXCEPT ![g] = FALSE], [begun EXCEPT ![g] = TRUE])
\* Leaving always releases the graph.
Close(t, how) ==
  /\ ctx[t] # NoGraph
  /\ Edge([op |-> "close", t |-> t, how |-> how, g |-> ctx[t],
           res |-> IF how = "error" THEN "the error" ELSE "fine"],
          [ctx EXCEPT ![t] = NoGraph], content, [closed EXCEPT ![ctx[t]] = TRUE], begun)
Assign(t, g, k) ==
  /\ begun[g] /\ ~ElseWhere(t, g) /\ k \notin content[g] /\ Needs(k) \subseteq content[g]
  /\ IF ctx[t] = g THEN Edge([op |-> "assign", t |-> t, g |-> g, k |-> k, res |-> TRUE], ctx,
                             [content EXCEPT ![g] = @ \cup {k}], closed, begun)
     ELSE Look([op |-> "assign", t |-> t, g |-> g, k |-> k, res |-> FALSE])
\* Everything that needs a finished graph
Use(t, g) == Look([op |-> "use", t |-> t, g |-> g, content |-> content[g],
                              res |-> IF closed[g] THEN "works" ELSE "refused"])
\* Looking at it is harmless at any time
Inspect(t, g) == Look([op |-> "inspect", t |-> t, g |-> g, res |-> TRUE])
Compare(t, g) == closed[g] /\ Look([op |-> "compare", t |-> t, g |-> g, content |-> content[g], res |-> "same"])
Copy(t, g, how) == closed[g] /\ content[g] # {} /\ Look([op |-> "copy", t |-> t, g |-> g, how |-> how, res |-> TRUE])

Next == \E t \in Threads, g \in GraphIds :
  \/ Open(t, g) \/ Use(t, g) \/ Inspect(t, g) \/ Compare(t, g)
  \/ \E k \in Keys : Assign(t, g, k)
  \/ \E how \in Copies : Copy(t, g, how)
  \/ (g = CHOOSE h \in GraphIds : TRUE) /\ \E how \in {"normal", "error"} : Close(t, how)

\* One graph per thread is how ctx is made; these say what it is good for.
Laws == /\ \A g \in GraphIds : closed[g] => begun[g] /\ ~\E t \in Threads : ctx[t] = g
        /\ \A t, u \in Threads : (t # u /\ ctx[t] # NoGraph) => ctx[t] # ctx[u]
        /\ \A g \in GraphIds : \A k \in content[g] : Needs(k) \subseteq content[g]
\* A finished graph does not change; each thread only affects what it defines.
Frozen == [][\A g \in GraphIds : closed[g] /\ closed'[g] => content'[g] = content[g]]_vars
Scoped == [][\A g \in GraphIds : content'[g] # content[g] => \E t \in Threads : ctx[t] = g /\ ctx'[t] = g]_vars
Independent == [][Cardinality({t \in Threads : ctx'[t] # ctx[t]}) <= 1]_vars
=============================================================================
