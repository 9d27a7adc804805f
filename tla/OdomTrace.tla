-------------------------------- MODULE OdomTrace -------------------------------
EXTENDS OdometryMap, TLC, TraceFile
VARIABLES sc, l, st
P32(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |-> F32(p[i][j])]]
Near(a, b) == Len(a) = Len(b) /\ (a = <<>> \/ MClose(a, b, "1e-6", "1e-5"))
Odom(p, s, e) ==
  LET pts == P32(e.points)
      n == TLCEval(After(s, pts, e.answer))
      w == Joined(Window(s.scans, p.window))
  IN IF /\ e.asked = (s.scans # <<>>)
        /\ (e.asked => /\ Near(e.log.map, w) /\ Near(e.log.scan, pts) /\ Near(e.log.from, s.pose))
        /\ Near(e.pose, n.pose)
        /\ Near(e.recent, Joined(Window(n.scans, p.window)))
        /\ ~e.empty
     THEN {n} ELSE {}
Add(p, s, e) ==
  LET pts == P32(e.points)
      n == TLCEval([s EXCEPT !.scans = Append(@, Placed(e.pose, pts))])
  IN IF /\ e.was_empty = (s.scans = <<>>) /\ ~e.empty
        /\ \A i \in 1..Len(e.recent) : Near(e.recent[i].points, Joined(Window(n.scans, e.recent[i].n)))
        /\ Near(e.all, Joined(n.scans))
     THEN {n} ELSE {}
OSt(p, s, e) ==
  CASE e.ev = "Scan" -> Odom(p, s, e)
    [] e.ev = "Add" -> Add(p, s, e)
    [] OTHER -> {}
OStart(p) == Fresh
OWhy(p, s, e) == <<e, "state", s>>
T == INSTANCE TraceLib WITH St <- OSt, Start <- OStart, Why <- OWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
