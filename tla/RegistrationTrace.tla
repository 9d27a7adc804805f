---------------------------- MODULE RegistrationTrace ---------------------------
EXTENDS Registration, TraceFile
VARIABLES sc, l, st
PoseNear(a, b) == MClose(a, b, "1e-6", "1e-6")
RSt(p, s, e) ==
  CASE e.ev = "Begin" -> IF PoseNear(e.pose, PoseOf(e.q, PTr(e.pose))) THEN {[Begun(e.q, PTr(e.pose), e.max) EXCEPT !.rows = <<>>]} ELSE {}
    [] e.ev = "Make" -> IF s.ph = "ask" /\ PoseNear(e.pose, PoseOf(s.q, s.t)) THEN Answered(s, PRot(e.pose), e.J, e.r) ELSE {}
    [] e.ev = "Result" -> IF s.ph = "done" /\ s.ok = e.success /\ PoseNear(e.pose, PoseOf(s.q, s.t)) THEN {s} ELSE {}
    [] OTHER -> {}
RStart(p) == [ph |-> "start"]
RWhy(p, s, e) == IF s.ph = "start" THEN e ELSE <<"expected", s.ph, s.ok, PoseOf(s.q, s.t), "iteration", s.k, e>>
T == INSTANCE TraceLib WITH St <- RSt, Start <- RStart, Why <- RWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
