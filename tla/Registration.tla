------------------------------ MODULE Registration ------------------------------
(* Robust Gauss-Newton registration.  rows: J, a sequence of k x 7 derivatives with   *)
(* respect to <<w, x, y, z, tx, ty, tz>>, and r, the residual vectors.               *)
EXTENDS Rotations, Robust

Errors(r) == [i \in 1..Len(r) |-> VDot(r[i], r[i])]
Weights(e) == LET s == TLCEval(FAdd(SpreadOf(e), "1e-16")) IN [i \in 1..Len(e) |-> HuberSlope(FDiv(e[i], s), HuberK)]
RECURSIVE MSumTo(_, _)
MSumTo(s, n) == IF n = 1 THEN s[1] ELSE MAdd(MSumTo(s, n - 1), s[n])
MSum(s) == MSumTo(s, Len(s))
Gram(J) == MMul(MT(J), J)
(* rotation by a small vector applied on the right, translation added                 *)
Tangent(q) ==
  LET c == [i \in 1..3 |-> VMul(QMul(q, QUnit(i + 1)), "0.5")] IN
  [i \in 1..7 |-> [j \in 1..6 |-> IF i <= 4 /\ j <= 3 THEN c[j][i] ELSE IF i > 4 /\ j > 3 /\ i - 4 = j - 3 THEN "1.0" ELSE "0.0"]]
Information(J) == MSum([i \in 1..Len(J) |-> Gram(J[i])])
Limit == "0.1"
Eigenvalues(m) == MEig(m)[1]
(* "yes", "no", or "open" when rounding decides                                       *)
Degenerate(m) ==
  LET e == TLCEval(Eigenvalues(m))
      big == FMaxOf([i \in 1..Len(e) |-> FAbs(e[i])])
      slack == FAdd("1e-9", FMul("1e-12", big))
      least == FNeg(FMaxOf([i \in 1..Len(e) |-> FNeg(FAbs(e[i]))]))
  IN IF FLt(least, FSub(Limit, slack)) THEN "yes" ELSE IF FLt(FAdd(Limit, slack), least) THEN "no" ELSE "open"
LeastSquares(M, w, J, r) ==
  LET A == TLCEval(MSum([i \in 1..Len(J) |-> MScale(Gram(J[i]), w[i])]))
      b == TLCEval(MSum([i \in 1..Len(J) |-> MScale(MMul(MT(J[i]), MCol(r[i])), w[i])]))
  IN MVec(MScale(MMul(MInv(MMul(MMul(MT(M), A), M)), MMul(MT(M), b)), "-1.0"))
NoStep == [i \in 1..6 |-> "0.0"]
(* the allowed steps <<rotation vector, translation>> as vectors of 6                  *)
Steps(q, w, J, r) ==
  LET d == Degenerate(Information(J)) IN
  (IF d \in {"yes", "open"} THEN {NoStep} ELSE {}) \cup (IF d \in {"no", "open"} THEN {TLCEval(LeastSquares(Tangent(q), w, J, r))} ELSE {})
Head3(x) == <<x[1], x[2], x[3]>>
Tail3(x) == <<x[4], x[5], x[6]>>
Small(v, lim) == LET n == VNorm(v) IN
  IF FLt(n, FMul(lim, "0.999999")) THEN "yes" ELSE IF FLt(FMul(lim, "1.000001"), n) THEN "no" ELSE "open"
(* convergence of a step: dq's vector part and dt both below the limit                 *)
Converged(dq, dt) ==
  LET a == Small(QVec(dq), "1e-3")  b == Small(dt, "1e-3") IN
  IF a = "no" \/ b = "no" THEN {FALSE} ELSE IF a = "yes" /\ b = "yes" THEN {TRUE} ELSE {TRUE, FALSE}
(* has x grown beyond p?  (either answer when rounding of size abs decides)            *)
Grew(x, p, same, abs) == IF same THEN {FALSE} ELSE IF FClose(x, p, "1e-12", abs) THEN {TRUE, FALSE} ELSE {FLt(p, x)}

(* --- the run: waiting for rows, or finished with a verdict                          *)
Begun(q, t, max) ==
  [ph |-> IF max <= 0 THEN "done" ELSE "ask", q |-> q, t |-> t, k |-> 0, max |-> max, ok |-> FALSE,
   first |-> TRUE, err |-> "0.0", spread |-> "0.0", rows |-> <<>>]
Finish(s, ok) == [s EXCEPT !.ph = "done", !.ok = ok]
(* sign of the quaternion of the pose is only fixed away from the switching surfaces   *)
Signs(R) ==
  LET q == TLCEval(QOfMatrix(R))  t == Trace3(R)
      close(x, y) == FLe(FAbs(FSub(x, y)), "1e-6")
      d == [i \in 1..3 |-> R[i][i]]  m == FMaxOf(d)
      top == {i \in 1..3 : close(d[i], m)}
      open == close(t, 0) \/ (FLt(t, 0) /\ top # {CHOOSE i \in top : TRUE})
  IN IF open THEN {q, QNeg(q)} ELSE {q}
Stepped(s, R, J, r, w) ==
  UNION {UNION {LET dq == TLCEval(QExp(Head3(x)))  dt == Tail3(x)
             n == [s EXCEPT !.q = TLCEval(QMul(s.q, dq)), !.t = TLCEval(VAdd(s.t, dt)), !.k = @ + 1]
         IN {IF c THEN Finish(n, TRUE) ELSE IF n.k >= n.max THEN Finish(n, FALSE) ELSE n : c \in Converged(dq, dt)}
         : x \in Steps(q, w, J, r)} : q \in Signs(R)}
Answered(s, R, J, r) ==
  IF Len(r) = 0 THEN {Finish(s, FALSE)}
  ELSE LET e == TLCEval(Errors(r))
           total == TLCEval(FSum(e))
           spread == TLCEval(SpreadOf(e))
           same == s.rows = r
           n == [s EXCEPT !.first = FALSE, !.err = total, !.spread = spread, !.rows = r]
           worse == IF s.first THEN {FALSE} ELSE
                    {a \/ b : a \in Grew(total, s.err, same, "0.0"), b \in Grew(spread, s.spread, same, FMul("1e-14", FMaxOf(e)))}
       IN (IF TRUE \in worse THEN {Finish(s, TRUE)} ELSE {}) \cup
          (IF FALSE \in worse THEN Stepped(n, R, J, r, TLCEval(Weights(e))) ELSE {})
================================================================================
