------------------------------- MODULE PlainTrace -------------------------------
(* Judges recorded runs of the ordinary KalmanFilter.  The covariance is seen only   *)
(* through the estimates that follow from it.                                        *)
EXTENDS DelayFilter, TLC, TraceFile
VARIABLES sc, l, st
tol == "1e-7"
Near(f, e) == VClose(e.x, Latest(f), tol, FMul(tol, FMax(1, FSqrt(FSumAbs(f.x)))))
Step(f, A, B, u, Q) == FilterPredict(f, MVec(MAdd(MMul(A, MCol(Latest(f))), MMul(B, MCol(u)))), A, Q)
Then(m, f, e) == IF ~e.threw /\ Near(f, e) THEN {[m EXCEPT !.f = f]} ELSE {}
PSt(p, m, e) ==
  LET a == e.step IN
  IF e.ev # "Did" THEN {} ELSE
  CASE a.op = "new" -> Then([A |-> a.A, B |-> a.B, C |-> a.C, Q |-> a.Q, R |-> a.R, f |-> 0], FilterInit(a.x, a.P, 1), e)
    [] a.op = "init" -> Then(m, FilterInit(a.x, a.P, 1), e)
    [] a.op = "own" -> Then(m, Step(m.f, m.A, m.B, a.u, m.Q), e)
    [] a.op = "given" -> Then(m, Step(m.f, a.A, a.B, a.u, a.Q), e)
    [] a.op = "copy" -> Then(m, m.f, e)
    [] a.op = "update" ->
         LET refused == Refused(m.f, m.C, m.R, 0)
             f == FilterOffer(m.f, a.y, m.C, m.R, 0) IN
         IF e.threw = refused /\ Near(f, e) THEN {[m EXCEPT !.f = f]} ELSE {}
    [] OTHER -> {}
PStart(p) == [f |-> 0]
PWhy(p, m, e) == <<e, m>>
T == INSTANCE TraceLib WITH St <- PSt, Start <- PStart, Why <- PWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
