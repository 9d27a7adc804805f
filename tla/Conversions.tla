------------------------------ MODULE Conversions -------------------------------
(* Selecting, stacking and moving rows; indices are counted from zero as in the code.  *)
EXTENDS Rotations, FiniteSets, TLC
RowsAt(m, idx) == [i \in 1..Len(idx) |-> m[idx[i] + 1]]
Where(v, x) == SelectSeq([i \in 1..Len(v) |-> i - 1], LAMBDA i : v[i + 1] = x)
RECURSIVE Stacked(_)
Stacked(s) == IF s = <<>> THEN <<>> ELSE Stacked(SubSeq(s, 1, Len(s) - 1)) \o s[Len(s)]
(* six by six matrix <-> 36 values, row by row                                          *)
Flat(m) == [i \in 1..(Len(m) * Len(m[1])) |-> m[(i - 1) \div Len(m[1]) + 1][((i - 1) % Len(m[1])) + 1]]
Square(a, n) == [i \in 1..n |-> [j \in 1..n |-> a[(i - 1) * n + j]]]
(* a rigid motion moves the first three values and keeps the others                      *)
Moved(T, v) == LET p == PMul(T, <<v[1], v[2], v[3]>>) IN p \o SubSeq(v, 4, Len(v))
Permutation(s, n) == Len(s) = n /\ {s[i] : i \in 1..Len(s)} = 0..(n - 1)
Deviance(v) ==     \* sample standard deviation
  LET m == FDiv(FSum(v), Len(v)) IN FSqrt(FDiv(FSum([i \in 1..Len(v) |-> FSq(FSub(v[i], m))]), Len(v) - 1))
(* one point per occupied cell of a grid: the mean of the points in it                   *)
CellOf(p, leaf) == LET f(x) == LET y == FDiv(x, leaf) t == FTrunc(y) IN IF FLt(y, t) THEN t - 1 ELSE t IN [i \in 1..3 |-> f(p[i])]
RECURSIVE VSumOf(_, _)
VSumOf(s, n) == IF n = 1 THEN [i \in 1..Len(s[1]) |-> FOf(s[1][i])] ELSE VAdd(VSumOf(s, n - 1), s[n])
CellMeans(pts, leaf) ==
  LET at(c) == SelectSeq(pts, LAMBDA p : CellOf(p, leaf) = c) IN
  {TLCEval(LET s == at(c) IN VMul(VSumOf(s, Len(s)), FDiv(1, Len(s)))) : c \in {CellOf(pts[i], leaf) : i \in 1..Len(pts)}}
================================================================================
