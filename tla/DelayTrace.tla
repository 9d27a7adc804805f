------------------------------- MODULE DelayTrace ------------------------------
(* Judges recorded runs of TimeDelayKalmanFilter against DelayFilter.             *)
EXTENDS DelayFilter, TLC, TraceFile
VARIABLES sc, l, st
tol == "1e-7"
Scale(f) == FMax(1, FMax(FSqrt(FSumAbs(f.x)), FSumAbs([i \in 1..Len(f.P) |-> f.P[i][i]])))
Agrees(f, e) ==
  /\ VClose(e.P, [k \in 1..(f.n * f.n) |-> f.P[((k - 1) \div f.n) + 1][((k - 1) % f.n) + 1]], tol, FMul(tol, Scale(f)))
  /\ \A d \in 1..f.N : VClose(e.xs[d], StateAt(f, d - 1), tol, FMul(tol, Scale(f)))
(* a gain that overflows when computed one way and not another: refused, or a finite estimate *)
AllFinite(e) == (\A i \in 1..Len(e.P) : FIsFinite(e.P[i])) /\ \A d \in 1..Len(e.xs) : \A i \in 1..Len(e.xs[d]) : FIsFinite(e.xs[d][i])
DSt(p, s, e) ==
  LET a == e.step IN
  CASE e.ev = "Init" -> LET f == FilterInit(a.x, a.P, a.N) IN IF Agrees(f, e) THEN {f} ELSE {}
    [] e.ev = "Predict" -> LET f == FilterPredict(s, a.xnext, a.A, a.Q) IN IF ~e.threw /\ Agrees(f, e) THEN {f} ELSE {}
    [] e.ev = "Update" /\ "over" \in DOMAIN p ->
         IF (e.threw /\ Agrees(s, e)) \/ (~e.threw /\ AllFinite(e)) THEN {"end"} ELSE {}
    [] e.ev = "Update" -> LET ref == Refused(s, a.C, a.R, a.d)
                              f == FilterOffer(s, a.y, a.C, a.R, a.d)
                          IN IF e.threw = ref /\ Agrees(f, e) THEN {f} ELSE {}
    [] OTHER -> {}
DStart(p) == "none"
DWhy(p, s, e) == IF e.ev = "Update" THEN <<e.ev, e, "expected", FilterOffer(s, e.step.y, e.step.C, e.step.R, e.step.d)>> ELSE e
T == INSTANCE TraceLib WITH St <- DSt, Start <- DStart, Why <- DWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
