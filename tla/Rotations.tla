------------------------------- MODULE Rotations --------------------------------
(* Quaternions <<w, x, y, z>>, rotation matrices, poses and derivatives, from their  *)
(* definitions.                                                                     *)
EXTENDS Reals64

VDot(a, b) == FSum([i \in 1..Len(a) |-> FMul(a[i], b[i])])
VAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
VMul(a, k) == [i \in 1..Len(a) |-> FMul(a[i], k)]
VNorm(a) == FSqrt(VDot(a, a))
VCross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                  FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                  FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Skew(v) == <<<<"0.0", FNeg(v[3]), v[2]>>, <<v[3], "0.0", FNeg(v[1])>>, <<FNeg(v[2]), v[1], "0.0">>>>

QVec(q) == <<q[2], q[3], q[4]>>
QMul(a, b) ==
  LET u == QVec(a)  v == QVec(b)
      w == FSub(FMul(a[1], b[1]), VDot(u, v))
      t == VAdd(VAdd(VMul(v, a[1]), VMul(u, b[1])), VCross(u, v))
  IN <<w, t[1], t[2], t[3]>>
QConj(q) == <<FOf(q[1]), FNeg(q[2]), FNeg(q[3]), FNeg(q[4])>>
QNeg(q) == [i \in 1..4 |-> FNeg(q[i])]
QUnit(i) == [j \in 1..4 |-> IF i = j THEN "1.0" ELSE "0.0"]
(* q (0, p) q*  : the rotated point when q is a unit quaternion                      *)
QRot(q, p) == QVec(QMul(QMul(q, <<"0.0", p[1], p[2], p[3]>>), QConj(q)))
QMatrix(q) == MT(<<QRot(q, <<"1.0", "0.0", "0.0">>), QRot(q, <<"0.0", "1.0", "0.0">>), QRot(q, <<"0.0", "0.0", "1.0">>)>>)
(* matrices of q -> p q and q -> q p                                                 *)
QLeft(p) == MT([i \in 1..4 |-> QMul(p, QUnit(i))])
QRight(p) == MT([i \in 1..4 |-> QMul(QUnit(i), p)])
QAbout(axis, angle) ==
  LET s == FSin(FDiv(angle, 2)) IN <<FCos(FDiv(angle, 2)), FMul(s, axis[1]), FMul(s, axis[2]), FMul(s, axis[3])>>
QRpy(r, p, y) == QMul(QMul(QAbout(<<0, 0, 1>>, y), QAbout(<<0, 1, 0>>, p)), QAbout(<<1, 0, 0>>, r))
QExp(v) == LET k == VNorm(v) IN IF FEq(k, 0) THEN QUnit(1) ELSE QAbout(VMul(v, FDiv(1, k)), k)
(* QRot is quadratic in q, so the central difference with any step is its derivative  *)
DRot(q, p) == MT([i \in 1..4 |->
  VMul(VSub(QRot([j \in 1..4 |-> FAdd(q[j], QUnit(i)[j])], p), QRot([j \in 1..4 |-> FSub(q[j], QUnit(i)[j])], p)), "0.5")])
(* the unit quaternion(s) of a rotation matrix with the usual choice of sign: w > 0 on  *)
(* a positive trace, otherwise the component of the largest diagonal entry positive    *)
Trace3(m) == FAdd(FAdd(m[1][1], m[2][2]), m[3][3])
QOfMatrix(m) ==
  LET t == Trace3(m)
      k == IF FGe(m[1][1], m[2][2]) /\ FGe(m[1][1], m[3][3]) THEN 1 ELSE IF FGe(m[2][2], m[3][3]) THEN 2 ELSE 3
      a == (k % 3) + 1   b == (a % 3) + 1
      s == FSqrt(FMax(0, FAdd(FSub(m[k][k], FAdd(m[a][a], m[b][b])), 1)))
      f == FDiv("0.5", s)
      vec == [i \in 1..3 |-> IF i = k THEN FMul("0.5", s)
                             ELSE FMul(FAdd(m[i][k], m[k][i]), f)]
  IN IF FLt(0, t)
     THEN LET r == FSqrt(FAdd(t, 1))  g == FDiv("0.5", r) IN
          <<FMul("0.5", r), FMul(FSub(m[3][2], m[2][3]), g), FMul(FSub(m[1][3], m[3][1]), g), FMul(FSub(m[2][1], m[1][2]), g)>>
     ELSE <<FMul(FSub(m[b][a], m[a][b]), f), vec[1], vec[2], vec[3]>>
(* a pose is the upper 3 x 4 part of its matrix                                       *)
PoseOf(q, t) == LET m == QMatrix(q) IN [i \in 1..3 |-> <<m[i][1], m[i][2], m[i][3], t[i]>>]
PRot(T) == MBlock(T, 0, 0, 3, 3)
PTr(T) == [i \in 1..3 |-> T[i][4]]
PMul(T, p) == VAdd(MVec(MMul(PRot(T), MCol(p))), PTr(T))
================================================================================
