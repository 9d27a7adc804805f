------------------------------- MODULE MapperTrace -------------------------------
(* Judges the map builder (map seen after every cloud) and the mapping node (map read   *)
(* from the file it leaves).                                                            *)
EXTENDS Mapper, TraceFile
VARIABLES sc, l, st
Queue == 1000
P5(c) == <<F32(c[1]), F32(c[2]), F32(c[3]), F32(c[4]), FOf(c[5])>>
Big(v) == FMaxOf([i \in 1..Len(v) |-> FAbs(v[i])])
PointNear(got, T, c, loose) ==
  LET s == P5(c)  xyz == <<s[1], s[2], s[3]>>  w == PMul(Trans(T), xyz)
      tol == FMul("1e-6", FAdd(1, FAdd(Big(xyz), Big(T.p)))) IN
  /\ \A i \in 1..3 : FClose(got[i], w[i], 0, tol)
  /\ IF loose THEN FClose(got[4], s[4], "1e-6", "1e-30") ELSE FEq(got[4], s[4])
  /\ FEq(got[5], s[5])
MapNear(got, map, from, loose) == Len(got) = Len(map) /\ \A i \in from..Len(map) : PointNear(got[i], map[i].T, map[i].c, loose)
(* exact: seconds counted from p.epoch *)
Nanos(p, h) == FAdd(FMul(h.stamp.sec - p.epoch, "1e9"), h.stamp.nsec)
Start0 == [pending |-> {}, m |-> Blank, seen |-> <<>>]
(* the builder *)
Cloud(s, e) ==
  {[s EXCEPT !.m = x, !.seen = e.map] : x \in {x \in Added(s.m, e.pose, e.points) :
      /\ e.empty = (x.map = <<>>)
      /\ Len(e.map) >= Len(s.seen) /\ SubSeq(e.map, 1, Len(s.seen)) = s.seen
      /\ MapNear(e.map, x.map, Len(s.seen) + 1, FALSE)}}
(* the node *)
Fields(m) == [i \in 1..Len(m.points) |-> LET c(f) == m.points[i][CHOOSE k \in 1..Len(m.fields) : m.fields[k][1] = f] IN <<c("x"), c("y"), c("z"), c("curvature"), c("ring")>>]
Msg(p, s, e) ==
  LET g == e.step.msg
      r == IF e.step.topic = "scan_edge" THEN Arrived(s.pending, "a", Nanos(p, g.header), Fields(g), Queue) ELSE Arrived(s.pending, "b", Nanos(p, g.header), g.pose, Queue)
  IN {[s EXCEPT !.pending = r.pending, !.m = x] : x \in IF r.pair = <<>> THEN {s.m} ELSE Added(s.m, r.pair[2], r.pair[1])}
FileOk(s, p, f) ==
  IF s.m.map = <<>> THEN f.exists = (p.old # "") /\ f.text = p.old
  ELSE f.exists /\ f.read /\ f.fields = <<"x", "y", "z", "curvature", "ring">> /\ MapNear(f.points, s.m.map, 1, TRUE)
MSt(p, s, e) ==
  CASE e.ev = "Cloud" -> Cloud(s, e)
    [] e.ev = "Small" -> IF e.res \in Near(e.a, e.b, e.metres, e.turn) THEN {s} ELSE {}
    [] e.ev = "Save" -> IF FileOk(s, p, e.file) THEN {s} ELSE {}
    [] e.ev = "Start" -> IF e.out = <<>> /\ {"scan_edge", "pose"} \subseteq {e.subs[i] : i \in 1..Len(e.subs)} THEN {s} ELSE {}
    [] e.ev = "Msg" -> IF e.delivered = 1 /\ e.out = <<>> THEN Msg(p, s, e) ELSE {}
    [] e.ev = "Exit" -> IF ~e.threw /\ e.rc = 0 /\ e.spun /\ FileOk(s, p, e.extra.file) /\ e.extra.others = <<>> THEN {s} ELSE {}
    [] OTHER -> {}
MStart(p) == Start0
MWhy(p, s, e) == <<"map so far", s.m, "event", e>>
T == INSTANCE TraceLib WITH St <- MSt, Start <- MStart, Why <- MWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
