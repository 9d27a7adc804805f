------------------------------ MODULE ConverterTrace -----------------------------
EXTENDS Converter, Reals64, TLC, TraceFile
VARIABLES sc, l, st
IsOrigin(v) == FEq(v[1], 0) /\ FEq(v[2], 0) /\ FEq(v[3], 0)
Same(a, b) == FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b))
(* x y z intensity are single precision, the ring a whole number                      *)
RowIs(row, v) == /\ \A i \in 1..4 : Same(row[i], F32(v[i]))
                 /\ FEq(row[5], v[5])
Fields(c) == [k \in 1..Len(c.fields) |-> [name |-> c.fields[k][1], offset |-> c.fields[k][2], datatype |-> c.fields[k][3]]]
Converted(c, m) ==
  LET want == Kept(Fields(c), c.points, IsOrigin, 0) IN
  /\ m.header = c.header
  /\ m.height = 1 /\ m.width = Len(want) /\ m.step = OutStep /\ m.row = OutStep * Len(want) /\ m.bytes = m.row
  /\ ~m.big /\ m.fields = OutFields
  /\ Len(m.rows) = Len(want)
  /\ \A i \in 1..Len(want) : RowIs(m.rows[i], want[i])
Wired(e) ==
  /\ Len(e.subs) = 1 /\ e.subs[1].topic = "points_raw" /\ e.subs[1].type = "PointCloud2" /\ e.subs[1].rel = "best_effort" /\ e.subs[1].hist = "keep_all"
  /\ Len(e.pubs) = 1 /\ e.pubs[1].topic = "points_converted" /\ e.pubs[1].type = "PointCloud2" /\ e.pubs[1].rel = "reliable" /\ e.pubs[1].hist = "keep_all"
CSt(p, s, e) ==
  CASE e.ev = "Start" -> IF Wired(e) THEN {"up"} ELSE {}
    [] e.ev = "Cloud" -> IF s = "up" /\ Len(e.out) = 1 /\ e.out[1].topic = "points_converted" /\ Converted(e.cloud, e.out[1].msg) THEN {"up"} ELSE {}
    [] e.ev = "Main" -> IF e.calls = <<"init", "node", "spin", "destroy", "shutdown">> THEN {"over"} ELSE {}
    [] OTHER -> {}
CStart(p) == "new"
CWhy(p, s, e) == IF e.ev = "Cloud" THEN <<"expected", Kept(Fields(e.cloud), e.cloud.points, IsOrigin, 0), "event", e>> ELSE <<"event", e>>
T == INSTANCE TraceLib WITH St <- CSt, Start <- CStart, Why <- CWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
