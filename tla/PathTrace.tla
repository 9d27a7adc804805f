-------------------------------- MODULE PathTrace --------------------------------
EXTENDS PathHistory, TLC, TraceFile
VARIABLES sc, l, st
Sent(p, e) ==
  /\ Len(e.out) = 1 /\ e.out[1].topic = "path" /\ e.out[1].type = "Path"
  /\ e.out[1].msg.header = p.header
  /\ e.out[1].msg.poses = p.poses
Told(p, e) == LET k == CHOOSE i \in 1..Len(e.pubs) : e.pubs[i].topic = "path" IN
  (\E i \in 1..Len(e.pubs) : e.pubs[i].topic = "path") /\ e.pubs[k].rel = "reliable" /\ e.pubs[k].dur = "transient_local"
(* a history can only be complete if no pose is dropped on the way in                 *)
Hears(e) == \E i \in 1..Len(e.inputs) : e.inputs[i].topic = "pose" /\ e.inputs[i].rel = "reliable" /\ e.inputs[i].hist = "keep_all"
PSt(p, s, e) ==
  CASE e.ev = "Start" -> IF e.out = <<>> /\ Told(p, e) /\ Hears(e) THEN {NoPath} ELSE {}
    [] e.ev = "Msg" -> LET r == Received(s, e.step.msg.header, e.step.msg.pose) IN IF e.delivered = 1 /\ Sent(r, e) THEN {r} ELSE {}
    [] e.ev = "Exit" -> IF ~e.threw /\ e.rc = 0 /\ e.out = <<>> THEN {s} ELSE {}
    [] OTHER -> {}
PStart(p) == NoPath
PWhy(p, s, e) == <<"poses before", s.poses, "event", e>>
T == INSTANCE TraceLib WITH St <- PSt, Start <- PStart, Why <- PWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
