------------------------------- MODULE LocalMapMC -------------------------------
(* LocalMap's residuals, derivatives and step, over a grid of rotations and points:     *)
(* derivatives are differences of the residuals, residuals are distances, and the       *)
(* least-squares step is a minimum.                                                    *)
EXTENDS LocalMap
VARIABLES q, a, b, c, t
vars == <<q, a, b, c, t>>
Quats == {QAbout(<<"0.6", "0.8", "0.0">>, w) : w \in {"0.0", "0.3", "2.0", "-3.0"}} \cup
         {QAbout(<<"0.0", "0.0", "1.0">>, w) : w \in {"1.5", "-2.2", "3.1"}} \cup
         {QRpy("0.3", "-1.1", "2.5"), QRpy("-2.0", "0.7", "-0.4")}
Vecs == {<<"1.0", "0.0", "0.0">>, <<"-0.5", "2.0", "1.5">>, <<"3.0", "-1.0", "0.25">>, <<"0.0", "0.0", "-2.0">>}
CONSTANT Few
All == Vecs
One == {<<"-0.5", "2.0", "1.5">>}
Init == q \in {QUnit(1)} /\ a = <<>> /\ b = <<>> /\ c = <<>> /\ t = <<>>
Next == a = <<>> /\ \E x \in Quats, p1 \in Vecs, p2 \in Vecs, p3 \in Few, s \in {<<"0.0", "0.0", "0.0">>, <<"1.0", "-2.0", "0.5">>} :
  p2 # p3 /\ q' = TLCEval(x) /\ a' = p1 /\ b' = p2 /\ c' = p3 /\ t' = s
Spec == Init /\ [][Next]_vars
Ready == a # <<>>
P(x) == [i \in 1..7 |-> IF i <= 4 THEN FOf(q[i]) ELSE FOf(t[i - 4])]
Plus(h, i) == [j \in 1..7 |-> IF i = j THEN FAdd(P(0)[j], h) ELSE P(0)[j]]
At(x) == VAdd(QRot(<<x[1], x[2], x[3], x[4]>>, a), <<x[5], x[6], x[7]>>)
(* the residuals are linear in the point and the point quadratic in the parameters, so   *)
(* central differences are exact for any step                                           *)
Difference(f(_)) == MT([i \in 1..7 |-> VMul(VSub(f(At(Plus(1, i))), f(At(Plus(-1, i)))), "0.5")])
Line(p) == LineResidual(p, b, c)
W == VAdd(b, VMul(c, "0.1"))
Plane(p) == <<PlaneDistance(W, p)>>
Close(m, n) == MClose(m, n, "1e-9", "1e-9")
LineDerivative == Ready => Close(LineRows(q, a, b, c), Difference(Line))
PlaneDerivative == Ready => Close(<<PlaneRow(W, q, a)>>, Difference(Plane))
AlignDerivative == Ready => LET f(p) == VSub(p, b) IN Close(AlignRows(q, a), Difference(f))
(* the residual of a line is its distance times the length of the segment; zero on it     *)
LineIsDistance == Ready =>
  LET p == At(P(0))  d == VSub(c, b)
      s == FDiv(VDot(VSub(p, b), d), VDot(d, d))
      foot == VAdd(b, VMul(d, s))
  IN /\ FClose(VNorm(Line(p)), FMul(VNorm(d), VNorm(VSub(p, foot))), "1e-9", "1e-9")
     /\ FClose(VNorm(Line(foot)), 0, 0, "1e-9")
PlaneIsDistance == Ready =>
  LET p == At(P(0))  d == PlaneDistance(W, p)
      foot == VSub(p, VMul(W, FDiv(d, VNorm(W))))
  IN FClose(PlaneDistance(W, foot), 0, 0, "1e-9") /\ FClose(VNorm(VSub(p, foot)), FAbs(d), "1e-9", "1e-9")
(* a plane fitted to points of a plane is that plane                                      *)
FitExact == Ready =>
  LET n == VMul(W, FDiv(1, VNorm(W)))
      u == VCross(n, IF FLt("0.5", FAbs(n[1])) THEN <<"0.0", "1.0", "0.0">> ELSE <<"1.0", "0.0", "0.0">>)
      v == VCross(n, u)
      o == VMul(n, FDiv("-1.0", VNorm(W)))
      X == <<VAdd(o, u), VAdd(o, v), VSub(o, u), VSub(o, v), VAdd(o, VAdd(u, v))>>
  IN VClose(PlaneOf(X), W, "1e-6", "1e-6")
(* the step along the rotation's tangent: differences of rotation by small vectors        *)
TangentExact == Ready =>
  LET h == "1e-6"
      e(i) == [j \in 1..3 |-> IF i = j THEN FOf(h) ELSE "0.0"]
      n(i) == [j \in 1..3 |-> IF i = j THEN FNeg(h) ELSE "0.0"]
      M == Tangent(q)
  IN \A i \in 1..3 : VClose(VMul(VSub(QMul(q, QExp(e(i))), QMul(q, QExp(n(i)))), "500000.0"),
                            [j \in 1..4 |-> M[j][i]], "1e-6", "1e-7")
(* aligning three points: the step is the minimum of the linearised weighted cost          *)
StepIsMinimum == Ready =>
  LET X == <<a, <<"1.0", "2.0", "-1.0">>, <<"-2.0", "0.5", "0.3">>, <<"0.1", "-1.5", "2.0">>>>
      J == [i \in 1..4 |-> AlignRows(q, X[i])]
      r == [i \in 1..4 |-> VSub(VAdd(QRot(q, X[i]), t), VAdd(X[i], b))]
      w == <<"1.0", "0.5", "0.25", "0.8">>
      s == TLCEval(LeastSquares(Tangent(q), w, J, r))
      cost(x) == FSum([i \in 1..4 |-> FMul(w[i], LET v == VAdd(r[i], MVec(MMul(J[i], MMul(Tangent(q), MCol(x))))) IN VDot(v, v))])
      base == TLCEval(cost(s))
  IN \A i \in 1..6 : \A d \in {"0.01", "-0.01"} : FLt(base, cost([j \in 1..6 |-> IF i = j THEN FAdd(s[j], d) ELSE s[j]]))
(* the sign convention: the quaternion of the rotation matrix is q or -q                    *)
MatrixRoundTrip == Ready => LET s == QOfMatrix(QMatrix(q)) IN VClose(s, q, "1e-9", "1e-9") \/ VClose(s, QNeg(q), "1e-9", "1e-9")
================================================================================
