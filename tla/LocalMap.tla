-------------------------------- MODULE LocalMap --------------------------------
(* Local geometry of a map around a point: nearest neighbours, line and plane fit,    *)
(* residuals and their derivatives.                                                   *)
EXTENDS Registration, FiniteSets

SqDist(a, b) == LET d == VSub(a, b) IN VDot(d, d)
(* indices of the k points closest to p                                               *)
Nearest(map, p, k) ==
  LET d == TLCEval([i \in 1..Len(map) |-> <<SqDist(map[i], p), i>>])
      o == SortSeq(d, LAMBDA a, b : FLt(a[1], b[1]))
  IN [i \in 1..k |-> o[i][2]]
Pick(map, idx) == [i \in 1..Len(idx) |-> map[idx[i]]]
RECURSIVE VSumTo(_, _)
VSumTo(s, n) == IF n = 1 THEN [i \in 1..Len(s[1]) |-> FOf(s[1][i])] ELSE VAdd(VSumTo(s, n - 1), s[n])
MeanOf(X) == VMul(VSumTo(X, Len(X)), FDiv(1, Len(X)))
CovOf(X) ==
  LET m == TLCEval(MeanOf(X))  D == TLCEval([i \in 1..Len(X) |-> VSub(X[i], m)]) IN
  MScale(MMul(MT(D), D), FDiv(1, Len(X)))

LineResidual(p, b, c) == VCross(VSub(p, b), VSub(p, c))
LineRows(q, a, b, c) ==
  LET K == Skew(VSub(c, b))  L == MMul(K, DRot(q, a)) IN
  [i \in 1..3 |-> <<L[i][1], L[i][2], L[i][3], L[i][4], K[i][1], K[i][2], K[i][3]>>]
(* plane w . x + 1 = 0                                                                *)
PlaneOf(X) ==
  LET A == MMul(MT(X), X)  b == MMul(MT(X), [i \in 1..Len(X) |-> <<"-1.0">>]) IN MVec(MMul(MInv(A), b))
PlaneDistance(w, p) == FDiv(FAdd(VDot(w, p), 1), VNorm(w))
PlaneRow(w, q, a) ==
  LET u == TLCEval(VMul(w, FDiv(1, VNorm(w))))  L == MMul(<<u>>, DRot(q, a)) IN
  <<L[1][1], L[1][2], L[1][3], L[1][4], u[1], u[2], u[3]>>
AlignRows(q, a) ==
  LET L == DRot(q, a) IN
  [i \in 1..3 |-> <<L[i][1], L[i][2], L[i][3], L[i][4], IF i = 1 THEN "1.0" ELSE "0.0", IF i = 2 THEN "1.0" ELSE "0.0", IF i = 3 THEN "1.0" ELSE "0.0">>]

(* --- judging what the code reports for one point                                     *)
Rel == "1e-6"
MNear(a, b) == MClose(a, b, Rel, FMul(Rel, FAdd(1, FMaxOf([i \in 1..Len(b) |-> FMaxOf([j \in 1..Len(b[i]) |-> FAbs(b[i][j])])]))))
VNear(a, b) == MNear(<<a>>, <<b>>)
SkewOf(J) == <<J[3][6], J[1][7], J[2][5]>>
EdgeRowOk(map, k, a, T, J, r) ==
  LET p == TLCEval(PMul(T, a))
      X == TLCEval(Pick(map, Nearest(map, p, k)))
      m == TLCEval(MeanOf(X))
      C == TLCEval(CovOf(X))
      h == TLCEval(SkewOf(J))
      u == TLCEval(VMul(h, "0.5"))
      Cu == TLCEval(MVec(MMul(C, MCol(u))))
      top == LET e == Eigenvalues(C) IN e[3]
  IN /\ FClose(VNorm(h), 2, Rel, 0)
     /\ FLe(VNorm(VSub(Cu, VMul(u, top))), FMul("1e-5", top))          \* the principal direction
     /\ MNear(MBlock(J, 0, 4, 3, 3), Skew(h))
     /\ \E q \in Signs(PRot(T)) : MNear(J, LineRows(q, a, VSub(m, u), VAdd(m, u)))
     /\ VNear(r, VCross(h, VSub(p, m)))
(* distance and derivative expected of one point, the latter up to the quaternion's sign *)
SurfaceRow(map, k, a, T) ==
  LET w == TLCEval(PlaneOf(TLCEval(Pick(map, Nearest(map, PMul(T, a), k))))) IN
  [r |-> PlaneDistance(w, PMul(T, a)), J |-> {PlaneRow(w, q, a) : q \in Signs(PRot(T))}]
SurfaceRowFits(x, J, r) ==
  /\ FClose(r[1], x.r, "1e-4", "1e-4") /\ Len(r) = 1
  /\ \E y \in x.J : MClose(J, <<y>>, "1e-4", "1e-4")
(* one point per occupied cell of edge length 1: the mean of the points in it           *)
Cell(p) == LET f(x) == LET t == FTrunc(x) IN IF FLt(x, t) THEN t - 1 ELSE t IN <<f(p[1]), f(p[2]), f(p[3])>>
Thinned(scan) ==
  LET cell == TLCEval([i \in 1..Len(scan) |-> Cell(scan[i])])
      of(c) == LET idx == SelectSeq([i \in 1..Len(scan) |-> i], LAMBDA i : cell[i] = c) IN [i \in 1..Len(idx) |-> scan[idx[i]]]
  IN {TLCEval(MeanOf(of(c))) : c \in {cell[i] : i \in 1..Len(scan)}}
EdgeRowsOk(map, k, scan, T, J, r) ==
  Len(J) = Len(scan) /\ Len(r) = Len(scan) /\ \A i \in 1..Len(scan) : EdgeRowOk(map, k, scan[i], T, J[i], r[i])
SurfaceRowsOk(map, k, scan, T, J, r) ==
  LET c == TLCEval(Thinned(scan))
      x == TLCEval([a \in c |-> SurfaceRow(map, k, a, T)])
  IN /\ Len(J) = Cardinality(c) /\ Len(r) = Len(J)
     /\ \A a \in c : \E i \in 1..Len(J) : SurfaceRowFits(x[a], J[i], r[i])
     /\ \A i \in 1..Len(J) : \E a \in c : SurfaceRowFits(x[a], J[i], r[i])
================================================================================
