-------------------------------- MODULE RobustMC --------------------------------
(* Median, spread and Huber's cost over every short sequence of a few values.          *)
EXTENDS Robust, FiniteSets
CONSTANTS Values, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Values : s' = Append(s, x)
Spec == Init /\ [][Next]_s
Some == s # <<>>
Count(P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
Back == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MedianHalves == Some => LET m == MedianOf(s) below(x) == FLe(x, m) above(x) == FLe(m, x) IN 2 * Count(below) >= Len(s) /\ 2 * Count(above) >= Len(s)
MedianMiddle == Some =>
  LET lower == {x \in Values : LET f(y) == FLe(y, x) IN 2 * Count(f) >= Len(s)}
      upper == {x \in Values : LET f(y) == FLe(x, y) IN 2 * Count(f) >= Len(s)}
      lo == CHOOSE x \in lower : \A y \in lower : FLe(x, y)
      hi == CHOOSE x \in upper : \A y \in upper : FLe(y, x)
  IN FEq(MedianOf(s), FDiv(FAdd(lo, hi), 2))
OrderFree == Some => FEq(MedianOf(s), MedianOf(Back)) /\ FEq(SpreadOf(s), SpreadOf(Back))
SpreadShiftsAndScales == Some =>
  /\ FClose(SpreadOf([i \in 1..Len(s) |-> FAdd(s[i], 10)]), SpreadOf(s), "1e-12", "1e-12")
  /\ FClose(SpreadOf([i \in 1..Len(s) |-> FMul(s[i], -3)]), FMul(3, SpreadOf(s)), "1e-12", "1e-12")
(* cost: continuous at the limit, the weight its derivative on both sides                *)
Huberly == Some => \A k \in {"0.5", "1.345", "3.0"} :
  LET e == FMul(FSq(k), FAdd(FAbs(s[Len(s)]), "0.2"))  h == FMul(e, "1e-6") IN
  /\ FClose(HuberCost(FMul(FSq(k), "1.000000001"), k), HuberCost(FMul(FSq(k), "0.999999999"), k), "1e-6", 0)
  /\ FClose(FDiv(FSub(HuberCost(FAdd(e, h), k), HuberCost(FSub(e, h), k)), FMul(2, h)), HuberSlope(e, k), "1e-5", "1e-6")
  /\ FLe(HuberCost(e, k), FMul(e, "1.000000000001")) /\ FLe(HuberSlope(e, k), 1)
================================================================================
