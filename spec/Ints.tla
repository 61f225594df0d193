-------------------------------- MODULE Ints --------------------------------
(* Sized integers: exact results in range, errors outside, kinds kept.          *)
(* Integers of any size are Limbs digits to base Base in two's complement,      *)
(* least significant first; the same definitions are checked against the plain  *)
(* integers at a reduced width (Base 4, width 4) and used at 64 bits.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise, SequencesExt

CONSTANTS Base, Limbs, Width, Which
ASSUME Base % 2 = 0
Ix == 1..Limbs
Zero == [n \in Ix |-> 0]
Digit(d) == [n \in Ix |-> IF n = 1 THEN d ELSE 0]
\* (folds evaluate at once; Val(e, F) is F(e) with e evaluated at once)
Val(e, F(_)) == FoldLeft(LAMBDA acc, x : F(x), 0, <<e>>)
Carry(s) == FoldLeft(LAMBDA acc, x : [d |-> Append(acc.d, (x + acc.c) % Base), c |-> (x + acc.c) \div Base], [d |-> <<>>, c |-> 0], s).d
Add(a, b) == Carry([n \in Ix |-> a[n] + b[n]])
Inv(a) == [n \in Ix |-> Base - 1 - a[n]]
Neg(a) == Carry([n \in Ix |-> Base - 1 - a[n] + IF n = 1 THEN 1 ELSE 0])
Sub(a, b) == Carry([n \in Ix |-> a[n] + Base - 1 - b[n] + IF n = 1 THEN 1 ELSE 0])
IsNeg(a) == 2 * a[Limbs] >= Base
Lt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE Val(Sub(a, b), IsNeg)
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
Mul(a, b) == Carry([n \in Ix |-> FoldLeft(LAMBDA acc, k : acc + a[k] * b[n + 1 - k], 0, [k \in 1..n |-> k])])
Half(a) == [n \in Ix |-> (a[n] \div 2) + (IF n = Limbs THEN (IF IsNeg(a) THEN Base \div 2 ELSE 0) ELSE (a[n + 1] % 2) * (Base \div 2))]
Times(k) == [n \in 1..k |-> n]
BShl(a, k) == FoldLeft(LAMBDA acc, n : Add(acc, acc), a, Times(k))
Shr(a, k) == FoldLeft(LAMBDA acc, n : Half(acc), a, Times(k))
Pow2(k) == BShl(Digit(1), k)
DigitBits == CHOOSE n \in 1..20 : 2^n = Base
Bit(a, k) == (a[1 + k \div DigitBits] \div 2^(k % DigitBits)) % 2
\* Restoring division of a >= 0 by b > 0: <<quotient, remainder>>
Double(a, bit) == Carry([n \in Ix |-> 2 * a[n] + IF n = 1 THEN bit ELSE 0])
Div(a, b) ==
  FoldLeft(LAMBDA acc, n : Val(Double(acc[2], Bit(a, Width + 9 - n)), LAMBDA r : IF Lt(r, b) THEN <<Double(acc[1], 0), r>> ELSE <<Double(acc[1], 1), Sub(r, b)>>),
           <<Zero, Zero>>, Times(Width + 9))
FloorDiv(a, b) ==
  Val(<<Abs(a), Abs(b)>>, LAMBDA ab : Val(Div(ab[1], ab[2]), LAMBDA d :
    IF IsNeg(a) = IsNeg(b) THEN d[1] ELSE IF d[2] = Zero THEN Neg(d[1]) ELSE Inv(d[1])))
Mod(a, b) == Val(FloorDiv(a, b), LAMBDA q : Val(Mul(q, b), LAMBDA m : Sub(a, m)))
BAnd(a, b) == [n \in Ix |-> a[n] & b[n]]
BOr(a, b) == [n \in Ix |-> a[n] | b[n]]
BXor(a, b) == [n \in Ix |-> a[n] ^^ b[n]]

(* ---- the sized kinds ---- *)
\* int: any; s: signed (int64); f: fingerprint (signed too); u: unsigned (uint64)
Mins == TLCEval(<<Zero, Neg(Pow2(Width - 1)), Sub(Pow2(Width), Digit(1)), Sub(Pow2(Width - 1), Digit(1))>>)
Least(k) == IF k = "u" THEN Mins[1] ELSE Mins[2]
Greatest(k) == IF k = "u" THEN Mins[3] ELSE Mins[4]
InRange(k, a) == k = "int" \/ (~Lt(a, Least(k)) /\ ~Lt(Greatest(k), a))
Err == [err |-> TRUE]
Ok(k, a) == IF InRange(k, a) THEN [kind |-> k, v |-> a] ELSE Err
\* Constructing kind k from one of kind j
Make(k, j, a) ==
  CASE k \in {"s", "f"} /\ j = "u" /\ Lt(Greatest("s"), a) -> Ok(k, Sub(a, Pow2(Width)))
    [] k = "u" /\ j \in {"s", "f"} /\ IsNeg(a) -> Ok(k, Add(a, Pow2(Width)))
    [] OTHER -> Ok(k, a)
ResultKind(j, k) == IF j = "int" THEN k ELSE j
Small(a) == IF IsNeg(a) THEN -1 ELSE a[1] + Base * a[2]
Fits(a) == \A n \in 3..Limbs : a[n] = 0
Exact(op, a, b) ==
  CASE op = "+" -> Add(a, b) [] op = "-" -> Sub(a, b) [] op = "*" -> Mul(a, b) [] op = "//" -> FloorDiv(a, b) [] op = "%" -> Mod(a, b)
    [] op = "&" -> BAnd(a, b) [] op = "|" -> BOr(a, b) [] op = "^" -> BXor(a, b) [] op = "<<" -> BShl(a, Small(b)) [] op = ">>" -> Shr(a, Small(b))
Result(op, j, a, k, b) ==
  IF op \in {"//", "%"} /\ b = Zero THEN Err
  ELSE IF op \in {"<<", ">>"} /\ IsNeg(b) THEN Err
  ELSE Val(Exact(op, a, b), LAMBDA r : Ok(ResultKind(j, k), r))
Unary(op, j, a) == Val(CASE op = "neg" -> Neg(a) [] op = "invert" -> Inv(a) [] OTHER -> a, LAMBDA r : Ok(j, r))

Arith == {"+", "-", "*", "//", "%", "&", "|", "^"}
Shifts == {"<<", ">>"}
Unaries == {"neg", "invert", "pos", "round", "round0", "floor", "ceil", "trunc"}

(* ---- operands ---- *)
P2(k, d) == IF d < 0 THEN Sub(Pow2(k), Digit(-d)) ELSE Add(Pow2(k), Digit(d))
Spread(k) == FoldLeft(LAMBDA acc, n : IF n % 2 = 0 THEN Double(acc, 1) ELSE Double(acc, 0), Zero, [n \in 1..k + 1 |-> k + 1 - n])     \* every other bit
W1 == Width - 1
WH == Width \div 2
Signed == {Zero, Digit(1), Digit(2), Digit(3), Digit(7), Neg(Digit(1)), Neg(Digit(2)), Neg(Digit(7)), P2(WH, 0), P2(WH, -1), P2(WH - 1, 0), Neg(P2(WH - 1, 0)), P2(W1 - 1, 0), P2(W1 - 1, 1),
           P2(W1, -1), P2(W1, -2), Neg(P2(W1, 0)), Neg(P2(W1, -1)), Spread(W1 - 1), Neg(Spread(W1 - 1))}
Unsigned == {Zero, Digit(1), Digit(2), Digit(3), Digit(7), P2(WH, 0), P2(WH, -1), P2(WH - 1, 0), P2(W1, 0), P2(W1, -1), P2(W1, 1), P2(Width, -1), P2(Width, -2), Spread(Width - 1)}
Plain == {Zero, Digit(1), Digit(2), Digit(3), Neg(Digit(1)), Neg(Digit(3)), P2(W1, 0), P2(W1, -1), Neg(P2(W1, 0)), Neg(P2(W1, 1)), P2(Width, 0), P2(Width, -1), P2(Width + 5, 0), Neg(P2(Width + 5, 1))}
Operands(k) == IF k = "u" THEN Unsigned ELSE IF k = "int" THEN Plain ELSE Signed
ShiftBy == {Digit(n) : n \in {0, 1, 2, WH, W1 - 1, W1, Width, Width + 1}} \cup {Neg(Digit(1))}
Kinds == {"int", "s", "u", "f"}

VARIABLE c
\* (the first operand first, so that the rest is worked out in parallel)
BinaryInit == \E j, k \in Kinds : (j # "int" \/ k # "int") /\ \E a \in Operands(j) : c = [op |-> "start", j |-> j, a |-> a, k |-> k]
BinaryNext == c.op = "start" /\ \E op \in Arith \cup Shifts :
                 \E b \in (IF op \in Shifts THEN {x \in ShiftBy : InRange(c.k, x)} ELSE Operands(c.k)) : c' = [c EXCEPT !.op = op] @@ [b |-> b]
UnaryInit == \E j \in Kinds \ {"int"} : \E a \in Operands(j), op \in Unaries : c = [op |-> op, j |-> j, a |-> a]
MakeInit == \E k \in {"s", "u", "f"}, j \in Kinds : \E a \in Operands(j) : c = [op |-> "make", k |-> k, j |-> j, a |-> a]
CombineInit == \E n \in 0..3 : \E q \in [1..n -> Signed] : c = [op |-> "combine", q |-> q]
XorAll(q, n) == FoldLeft(BXor, Zero, SubSeq(q, 1, n))
SomeCombines == c.op # "combine" \/ Len(c.q) < 3
Expect == CASE c.op \in Unaries -> Unary(c.op, c.j, c.a) [] c.op = "make" -> Make(c.k, c.j, c.a)
            [] c.op = "combine" -> [kind |-> "f", v |-> XorAll(c.q, Len(c.q))] [] OTHER -> Result(c.op, c.j, c.a, c.k, c.b)
Emit == c.op = "start" \/ PrintT("@C" \o ToJson([c |-> c, want |-> Expect]))
\* converting there and back loses nothing; what is in range is exact
Laws ==
  CASE c.op = "start" -> TRUE [] c.op = "make" -> (c.j \in {"s", "f", "u"} => LET m == Make(c.k, c.j, c.a) IN m # Err /\ Make(c.j, c.k, m.v) = [kind |-> c.j, v |-> c.a])
    [] c.op = "combine" -> \A n \in DOMAIN c.q : XorAll([c.q EXCEPT ![1] = c.q[n], ![n] = c.q[1]], Len(c.q)) = XorAll(c.q, Len(c.q))
    [] OTHER -> Expect = Err \/ InRange(Expect.kind, Expect.v)

(* ---- the definitions at a reduced width against the plain integers ---- *)
RECURSIVE Big(_, _)
Big(n, k) == IF k = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base, k - 1)
RECURSIVE Whole(_)
Whole(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * Whole(Tail(a))
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
Native(a) == IF IsNeg(a) THEN Whole(a) - Power(Base, Limbs) ELSE Whole(a)
Of(n) == Big(n, Limbs)
Lo == -Power(2, Width - 1)
Hi == Power(2, Width) - 1
Bits(n, k) == (n \div Power(2, k)) % 2
SmallInit == c \in [op : {"small"}, a : Lo..Hi, b : Lo..Hi]
TestBit(f(_, _), r, a, b) == \A k \in 0..Width + 2 : Bits(r, k) = f(Bits(a, k), Bits(b, k))
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y
NeOf(x, y) == IF x = y THEN 0 ELSE 1
SmallLaws == LET a == c.a  b == c.b  A == Of(a)  B == Of(b) IN
  /\ Native(A) = a /\ Native(Neg(A)) = -a /\ Native(Inv(A)) = -a - 1
  /\ Native(Add(A, B)) = a + b /\ Native(Sub(A, B)) = a - b /\ Native(Mul(A, B)) = a * b
  /\ Lt(A, B) = (a < b)
  /\ TestBit(MinOf, Native(BAnd(A, B)), a, b) /\ TestBit(MaxOf, Native(BOr(A, B)), a, b) /\ TestBit(NeOf, Native(BXor(A, B)), a, b)
  /\ b # 0 => LET q == Native(FloorDiv(A, B))  r == Native(Mod(A, B)) IN a = q * b + r /\ (IF b > 0 THEN 0 <= r /\ r < b ELSE b < r /\ r <= 0)
  /\ b \in 0..Width + 1 => Native(BShl(A, b)) = a * Power(2, b) /\ Native(Shr(A, b)) = a \div Power(2, b)
  /\ InRange("s", A) = (a < Power(2, Width - 1)) /\ InRange("u", A) = (a >= 0)
  /\ \A k \in {"s", "u"} : LET m == Make(k, IF k = "s" THEN "u" ELSE "s", A) IN
       InRange(IF k = "s" THEN "u" ELSE "s", A) => m # Err /\ (Native(m.v) - a) % Power(2, Width) = 0
  /\ InRange("s", A) /\ InRange("s", B) => InRange("s", BXor(A, B)) /\ BXor(A, B) = BXor(B, A) /\ BXor(A, A) = Zero /\ BXor(A, Zero) = A
                                          /\ \A x \in Lo..Power(2, Width - 1) - 1 : BXor(BXor(A, B), Of(x)) = BXor(A, BXor(B, Of(x)))
Next == BinaryNext
=============================================================================
