------------------------------ MODULE RotationsMC -------------------------------
(* The laws of Rotations over a grid of quaternions, vectors and angles.               *)
EXTENDS Rotations, TLC
CONSTANT Steps
VARIABLES p, q, v, a
vars == <<p, q, v, a>>
G == {"-1.0", "0.0", "0.5"}
Raw == {<<w, x, y, z>> : w \in {"1.0", "-0.5", "0.0"}, x \in G, y \in G, z \in {"0.0", "2.0"}} \ {<<"0.0", "0.0", "0.0", "0.0">>}
Angles == [i \in 0..Steps |-> FMul(FDiv(FSub(FMul(2, i), Steps), Steps), "3.3")]
Init == p = <<>> /\ q = <<>> /\ v = <<>> /\ a = <<>>
Next == p = <<>> /\ \E i, j, k \in 0..Steps, x \in Raw :
  /\ q' = x /\ a' = <<Angles[i], Angles[j], Angles[k]>>
  /\ v' = <<Angles[k], FSub(Angles[j], "0.4"), FMul(2, Angles[i])>> /\ p' = TLCEval(QRpy(Angles[j], Angles[i], Angles[k]))
Spec == Init /\ [][Next]_vars
Ready == p # <<>>
Near(x, y) == MClose(<<x>>, <<y>>, "1e-9", "1e-9")
MNear(x, y) == MClose(x, y, "1e-9", "1e-9")
Unit(x) == VMul(x, FDiv(1, VNorm(x)))
HatIsCross == Ready => Near(MVec(MMul(Skew(v), MCol(a))), VCross(v, a))
LeftRight == Ready => Near(MVec(MMul(QLeft(p), MCol(q))), QMul(p, q)) /\ Near(MVec(MMul(QRight(q), MCol(p))), QMul(p, q))
Associative == Ready => LET s == <<"0.3", "-1.0", "0.2", "0.7">> IN Near(QMul(QMul(p, q), s), QMul(p, QMul(q, s)))
RotationKeepsLength == Ready => FClose(VNorm(QRot(p, v)), VNorm(v), "1e-9", "1e-9")
RotationsCompose == Ready => Near(QRot(QMul(p, Unit(q)), v), QRot(p, QRot(Unit(q), v)))
MatrixActs == Ready => Near(MVec(MMul(QMatrix(p), MCol(v))), QRot(p, v)) /\ MNear(MMul(QMatrix(p), MT(QMatrix(p))), MId(3))
Rx(t) == <<<<"1.0", "0.0", "0.0">>, <<"0.0", FCos(t), FNeg(FSin(t))>>, <<"0.0", FSin(t), FCos(t)>>>>
Ry(t) == <<<<FCos(t), "0.0", FSin(t)>>, <<"0.0", "1.0", "0.0">>, <<FNeg(FSin(t)), "0.0", FCos(t)>>>>
Rz(t) == <<<<FCos(t), FNeg(FSin(t)), "0.0">>, <<FSin(t), FCos(t), "0.0">>, <<"0.0", "0.0", "1.0">>>>
RpyIsProduct == Ready => MNear(QMatrix(QRpy(a[1], a[2], a[3])), MMul(MMul(Rz(a[3]), Ry(a[2])), Rx(a[1])))
ExpIsRodrigues == Ready =>
  LET n == VNorm(a) IN FLt("1e-6", n) =>
  LET K == Skew(VMul(a, FDiv(1, n)))
      R == MAdd(MId(3), MAdd(MScale(K, FSin(n)), MScale(MMul(K, K), FSub(1, FCos(n)))))
  IN MNear(QMatrix(QExp(a)), R) /\ FClose(VNorm(QExp(a)), 1, "1e-9", 0)
ExpNearZero == Ready => LET s == VMul(a, "1e-9") IN Near(QExp(s), <<"1.0", FDiv(s[1], 2), FDiv(s[2], 2), FDiv(s[3], 2)>>)
(* the derivative does not depend on the size of the difference                           *)
Derivative == Ready =>
  LET h == "0.125" IN
  MNear(DRot(q, v), MT([i \in 1..4 |-> VMul(VSub(QRot([j \in 1..4 |-> FAdd(q[j], FMul(h, QUnit(i)[j]))], v),
                                                 QRot([j \in 1..4 |-> FSub(q[j], FMul(h, QUnit(i)[j]))], v)), "4.0")]))
Inverse == Ready => Near(QMul(p, QConj(p)), QUnit(1))
MatrixToQuaternion == Ready => LET s == QOfMatrix(QMatrix(p)) IN Near(s, p) \/ Near(s, QNeg(p))
================================================================================
