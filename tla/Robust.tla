--------------------------------- MODULE Robust ---------------------------------
EXTENDS Reals64, TLC
Ascending(s) == SortSeq(s, LAMBDA a, b : FLt(a, b))
MedianOf(s) ==
  LET t == Ascending(s)  n == Len(s) IN
  IF n % 2 = 1 THEN FOf(t[(n + 1) \div 2]) ELSE FDiv(FAdd(t[n \div 2], t[n \div 2 + 1]), 2)
Deviation(s) == LET m == MedianOf(s) IN MedianOf([i \in 1..Len(s) |-> FAbs(FSub(s[i], m))])
SpreadOf(s) == FMul("1.482602218505602", Deviation(s))
HuberK == "1.345"
(* cost of a squared error e: e up to the squared limit, then linear in its root     *)
HuberCost(e, k) == IF FLt(e, FSq(k)) THEN FOf(e) ELSE FSub(FMul(FMul(2, k), FSqrt(e)), FSq(k))
HuberSlope(e, k) == IF FLt(e, FSq(k)) THEN "1.0" ELSE FDiv(k, FSqrt(e))
================================================================================
