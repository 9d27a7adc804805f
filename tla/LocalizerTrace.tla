------------------------------ MODULE LocalizerTrace ------------------------------
(* Judges recorded runs of the localization node.  p.runs holds, for scans and priors  *)
(* the model joined, a recorded run of the registration from that prior; each is judged *)
(* by Registration and LocalMap before the published pose is compared with it.          *)
EXTENDS Localizer, LocalMap, TraceFile
VARIABLES sc, l, st
Iterations == 40
Neighbours == 15
Second == "1e9"
Nanos(h) == FAdd(FMul(h.stamp.sec, "1e9"), h.stamp.nsec)
PoseNear(a, b) == MClose(a, b, "1e-6", "1e-6")
MsgPose(m) == PoseOf(VMul(m.q, FDiv(1, VNorm(m.q))), m.p)
PosesNear(a, m) == FClose(VNorm(m.q), 1, "1e-9", 0) /\ PoseNear(a, MsgPose(m))

(* the recorded registration is one the specification allows                             *)
RECURSIVE Follow(_, _)
Follow(states, calls) ==
  IF calls = <<>> THEN states
  ELSE Follow(UNION {IF s.ph = "ask" /\ PoseNear(calls[1].pose, PoseOf(s.q, s.t)) THEN Answered(s, PRot(calls[1].pose), calls[1].J, calls[1].r) ELSE {} : s \in states}, Tail(calls))
RowsOk(p, run) ==
  run.calls = <<>> \/ ~p.deep \/
  LET c == run.calls[1]  n == Len(run.edge)  m == Len(c.J)  T == c.pose IN
  /\ m >= n
  /\ EdgeRowsOk(p.edge_map, Neighbours, run.edge, T, SubSeq(c.J, 1, n), SubSeq(c.r, 1, n))
  /\ SurfaceRowsOk(p.surface_map, Neighbours, run.surface, T, SubSeq(c.J, n + 1, m), SubSeq(c.r, n + 1, m))
RunOkWithin(p, run, prior, max) ==
  LET start == TLCEval(MsgPose(prior)) IN
  /\ PoseNear(run.begin.pose, start)
  /\ RowsOk(p, run)
  /\ \E s \in Follow({Begun(run.begin.q, PTr(run.begin.pose), max)}, run.calls) :
       s.ph = "done" /\ s.ok = run.result.success /\ PoseNear(run.result.pose, PoseOf(s.q, s.t))
RunOk(p, run, prior) == RunOkWithin(p, run, prior, Iterations)
(* the localizer itself, with any iteration limit                                        *)
UpdateOk(p, s, e) ==
  /\ e.is /\ e.was = s.job
  /\ PoseNear(e.start, MsgPose(e.run.prior))
  /\ RunOkWithin(p, e.run, e.run.prior, p.max)
  /\ PoseNear(e.got, e.run.result.pose) /\ e.success = e.run.result.success
Points(m) == [i \in 1..Len(m.points) |-> LET c(f) == m.points[i][CHOOSE k \in 1..Len(m.fields) : m.fields[k][1] = f] IN <<c("x"), c("y"), c("z")>>]

Diagonal == [i \in 1..36 |-> IF i \in {1, 8, 15} THEN "1.0" ELSE IF i \in {22, 29, 36} THEN "0.1" ELSE "0.0"]
PoseOutOk(o, h, want) ==
  /\ o.type = "PoseWithCovarianceStamped" /\ o.topic = "estimated_pose"
  /\ o.msg.header.frame = "map" /\ o.msg.header.stamp = h.stamp
  /\ PosesNear(want, o.msg.pose)
  /\ \A i \in 1..36 : FEq(o.msg.cov[i], Diagonal[i])
TfOutOk(o, h, want) ==
  /\ o.type = "Transform" /\ o.msg.header.frame = "map" /\ o.msg.child = "lidar_feature_base_link" /\ o.msg.header.stamp = h.stamp
  /\ PosesNear(want, o.msg.pose)
OutOk(p, job, h, out) ==
  IF job = <<>> THEN out = <<>>
  ELSE LET j == job[1] IN
    /\ Len(out) = 2
    /\ \E r \in 1..Len(p.runs) :
         LET run == p.runs[r] IN
         /\ run.edge = j.edge /\ run.surface = j.surface /\ run.prior = j.prior
         /\ RunOk(p, run, j.prior)
         /\ \E i \in {1, 2} : PoseOutOk(out[i], h, run.result.pose) /\ TfOutOk(out[3 - i], h, run.result.pose)
Msg(p, s, e) ==
  LET m == e.step.msg  t == Nanos(m.header)
      next == IF e.step.topic = "scan_edge" THEN NewScan(s, "a", t, Points(m), Queue, Second)
              ELSE IF e.step.topic = "scan_surface" THEN NewScan(s, "b", t, Points(m), Queue, Second)
              ELSE [NewPrior(s, t, m.pose) EXCEPT !.job = <<>>]
  IN IF e.delivered = 1 /\ OutOk(p, next.job, m.header, e.out) THEN {[next EXCEPT !.job = <<>>]} ELSE {}
NSt(p, s, e) ==
  CASE e.ev = "Start" -> IF p.missing = "" /\ e.out = <<>> /\ {"scan_edge", "scan_surface", "optimization_start_odom", "optimization_start_pose"} \subseteq {e.subs[i] : i \in 1..Len(e.subs)} THEN {Fresh} ELSE {}
    [] e.ev = "Msg" -> Msg(p, s, e)
    [] e.ev = "Update" -> IF UpdateOk(p, s, e) THEN {[s EXCEPT !.job = TRUE]} ELSE {}
    [] e.ev = "Exit" -> IF ~e.threw /\ e.out = <<>> /\ (p.missing = "") = e.spun /\ (p.missing # "" => e.rc # 0) THEN {s} ELSE {}
    [] OTHER -> {}
NStart(p) == [Fresh EXCEPT !.job = FALSE]
NWhy(p, s, e) == IF e.ev # "Msg" THEN e ELSE
  LET m == e.step.msg  t == Nanos(m.header)
      next == IF e.step.topic = "scan_edge" THEN NewScan(s, "a", t, Points(m), Queue, Second)
              ELSE IF e.step.topic = "scan_surface" THEN NewScan(s, "b", t, Points(m), Queue, Second) ELSE s
      runs == {r \in 1..Len(p.runs) : next.job # <<>> /\ p.runs[r].edge = next.job[1].edge /\ p.runs[r].prior = next.job[1].prior}
  IN <<"topic", e.step.topic, "stamp", m.header.stamp, "expects result", next.job # <<>>, "from", {next.job[i].prior : i \in 1..Len(next.job)},
       "registration gives", {p.runs[r].result.pose : r \in runs}, "published", e.out>>
T == INSTANCE TraceLib WITH St <- NSt, Start <- NStart, Why <- NWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
