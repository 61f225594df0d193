------------------------------ MODULE MCOverlap ------------------------------
(* Bounded instances of Overlap for TLC; further programs come from outside. *)
EXTENDS Overlap, IOUtils

R(part) == [raw |-> TRUE, part |-> part, prod |-> 0, pos |-> 0]
O(p, pos, part) == [raw |-> FALSE, part |-> part, prod |-> p, pos |-> pos]
P(cls, ins, fn, map) == [cls |-> cls, ins |-> ins, fn |-> fn, map |-> map]
MCPrograms == <<
  [arts  |-> <<R(FALSE), O(1, 1, FALSE), O(2, 1, FALSE)>>,
   prods |-> <<P("A", <<1>>, "lin", "all"), P("B", <<2, 1>>, "par", "all")>>],
  [arts  |-> <<R(FALSE), O(1, 1, FALSE), O(1, 2, FALSE), O(2, 1, FALSE)>>,
   prods |-> <<P("T", <<1>>, "lin", "all"), P("B", <<3>>, "par", "all")>>],
  [arts  |-> <<R(TRUE), O(1, 1, TRUE), O(2, 1, FALSE)>>,
   prods |-> <<P("E", <<1>>, "par", "each"), P("S", <<2>>, "lin", "all")>>]
>>
GenPrograms == JsonDeserialize(IOEnv.PROGS)
=============================================================================
