------------------------------- MODULE Reads -------------------------------
(* What a read of an artifact through a graph or snapshot answers, by what   *)
(* exists and how it is asked.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* stored: partitions that exist; unpartitioned artifacts have at most one
Arts == [raw : BOOLEAN, part : BOOLEAN, lit : BOOLEAN]
Cases == {c \in [art : Arts, stored : 0..3, asked : {"nothing", "annotation", "view", "both"},
                 fits : BOOLEAN, through : {"graph", "snapshot"}, explicit : 0..2] :
            /\ ~c.art.part => c.stored <= 1
            /\ c.art.raw /\ c.art.lit => ~c.art.part            \* literals are partitioned only if produced
            /\ ~c.fits => c.asked = "annotation"                \* a type the artifact cannot be read as
            /\ c.art.raw /\ c.through = "snapshot" => c.stored > 0
            \* explicit = n > 0: n - 1 ... of the stored partitions are passed explicitly
            /\ c.explicit = 2 => c.stored >= 1}

\* Through which partitions are read: the current ones, or those linked to the snapshot, or the given ones
Selected(c) == IF c.explicit = 1 THEN 0 ELSE IF c.explicit = 2 THEN 1 ELSE c.stored
Expected(c) ==
  IF c.asked \in {"nothing", "both"} THEN "refused"
  ELSE IF ~c.fits THEN "refused"
  ELSE IF Selected(c) = 0 THEN "missing"
  ELSE IF c.explicit = 2 THEN "first"
  ELSE "all"

VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
\* Nothing is returned unless it was asked for properly and exists.
Laws == /\ Expected(c) \in {"all", "first"} => c.asked \in {"annotation", "view"} /\ c.fits /\ c.stored > 0
        /\ Expected(c) = "missing" => Selected(c) = 0
Emit == PrintT("@C" \o ToJson([c |-> c, want |-> Expected(c)]))
=============================================================================
