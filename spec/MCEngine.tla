------------------------------ MODULE MCEngine ------------------------------
(* Bounded instances of Engine for TLC. *)
EXTENDS Engine

R(part) == [raw |-> TRUE, part |-> part, prod |-> 0, pos |-> 0]
O(p, pos, part) == [raw |-> FALSE, part |-> part, prod |-> p, pos |-> pos]
P(cls, ins, fn, map) == [cls |-> cls, ins |-> ins, fn |-> fn, map |-> map]

MCPrograms == <<
  \* 1: chain with a collapsing step and a diamond
  [arts  |-> <<R(FALSE), R(FALSE), O(1, 1, FALSE), O(2, 1, FALSE), O(3, 1, FALSE)>>,
   prods |-> <<P("A", <<1, 2>>, "lin", "all"), P("B", <<3>>, "par", "all"), P("A", <<3, 4>>, "lin", "all")>>],
  \* 2: two outputs, one of them consumed
  [arts  |-> <<R(FALSE), O(1, 1, FALSE), O(1, 2, FALSE), O(2, 1, FALSE)>>,
   prods |-> <<P("T", <<1>>, "lin", "all"), P("B", <<3>>, "par", "all")>>],
  \* 3: partitioned, then aggregated
  [arts  |-> <<R(TRUE), O(1, 1, TRUE), O(2, 1, FALSE)>>,
   prods |-> <<P("E", <<1>>, "par", "each"), P("S", <<2>>, "lin", "all")>>],
  \* 4: windows and broadcast
  [arts  |-> <<R(TRUE), R(FALSE), O(1, 1, TRUE), O(2, 1, TRUE)>>,
   prods |-> <<P("W", <<1>>, "lin", "win"), P("J", <<3, 2>>, "lin", "each")>>],
  \* 5: partitioned two outputs, one class used twice
  [arts  |-> <<R(TRUE), O(1, 1, TRUE), O(1, 2, TRUE), O(2, 1, TRUE), O(2, 2, TRUE)>>,
   prods |-> <<P("D", <<1>>, "par", "each"), P("D", <<3>>, "par", "each")>>],
  \* 6: only the second output assigned, an output assigned twice, a producer without inputs
  [arts  |-> <<R(FALSE), O(1, 2, FALSE), O(2, 1, FALSE), O(2, 1, FALSE), O(3, 1, FALSE)>>,
   prods |-> <<P("T", <<1>>, "lin", "all"), P("B", <<2>>, "par", "all"), P("Z", <<>>, "con", "all")>>],
  \* 7: a mapping that may select nothing
  [arts  |-> <<R(TRUE), O(1, 1, TRUE), O(2, 1, TRUE)>>,
   prods |-> <<P("F", <<1>>, "lin", "odd"), P("E", <<2>>, "par", "each")>>],
  \* 8: partitions of the partition before, and of groups of partitions
  [arts  |-> <<R(TRUE), O(1, 1, TRUE), O(2, 1, TRUE)>>,
   prods |-> <<P("V", <<1>>, "lin", "prev"), P("G", <<1>>, "par", "group")>>]
>>
=============================================================================
