------------------------------ MODULE MapServingTrace -----------------------------
(* Judges the map loader (p.kind = "loader") and the viewer frame node ("viewer").      *)
EXTENDS MapServing, TLC, TraceFile
VARIABLES sc, l, st
Told(e) == \E i \in 1..Len(e.pubs) : e.pubs[i].topic = "map_topic" /\ e.pubs[i].rel = "reliable" /\ e.pubs[i].dur = "transient_local"
(* a viewer started after the map was published still receives it *)
Hears(e) == \E i \in 1..Len(e.inputs) : e.inputs[i].topic = "pointcloud_map" /\ e.inputs[i].rel = "reliable" /\ e.inputs[i].dur = "transient_local"
(* every declared field of every point, under its own name *)
Near(a, b) == IF FIsNaN(b) THEN FIsNaN(a) ELSE FEq(a, b)
Same(p, m) ==
  /\ m.wellformed /\ m.header.frame = "map"
  /\ Len(m.points) = Len(p.points) /\ m.width * m.height = Len(p.points)
  /\ m.height = p.height
  /\ \A f \in 1..Len(p.names) : \E g \in 1..Len(m.fields) :
       m.fields[g][1] = p.names[f] /\ \A i \in 1..Len(p.points) : Near(m.points[i][g], p.points[i][f])
SentOnce(p, e) ==
  LET r == Loaded(p.name, p.points) IN
  IF r.refused THEN e.out = <<>>
  ELSE Len(e.out) = Len(r.sent) /\ \A i \in 1..Len(e.out) : e.out[i].topic = "map_topic" /\ e.out[i].type = "PointCloud2" /\ Same(p, e.out[i].msg)
Col(m, f) == CHOOSE k \in 1..Len(m.fields) : m.fields[k][1] = f
FrameOk(p, e) ==
  LET m == e.step.msg  cols == <<Col(m, "x"), Col(m, "y"), Col(m, "z")>>
      s == [i \in 1..Len(m.points) |-> [k \in 1..3 |-> F32(m.points[i][cols[k]])]]
      c == Centroid(s, <<1, 2, 3>>)
      o == e.out[1]
  IN /\ Len(e.out) = 1 /\ o.topic = "tf_static" /\ o.type = "Transform"
     /\ o.msg.header.frame = p.map_frame /\ o.msg.child = p.viewer_frame
     /\ \A k \in 1..3 : FClose(o.msg.pose.p[k], c[k], 0, FMul("1e-10", FAdd("1e-6", Largest(s, k))))
     /\ \A k \in 1..4 : FEq(o.msg.pose.q[k], IF k = 1 THEN 1 ELSE 0)
VSt(p, s, e) ==
  IF p.kind = "loader" THEN
    CASE e.ev = "Start" -> IF p.name # "" /\ Told(e) /\ SentOnce(p, e) THEN {"up"} ELSE {}
      [] e.ev = "Exit" -> IF e.out = <<>> /\ e.threw = (p.name = "") /\ e.spun = (p.name # "") THEN {s} ELSE {}
      [] OTHER -> {}
  ELSE
    CASE e.ev = "Start" -> IF e.out = <<>> /\ Hears(e) THEN {"up"} ELSE {}
      [] e.ev = "Msg" -> IF e.delivered = 1 /\ FrameOk(p, e) THEN {s} ELSE {}
      [] e.ev = "Exit" -> IF ~e.threw /\ e.spun /\ e.out = <<>> THEN {s} ELSE {}
      [] OTHER -> {}
VStart(p) == "down"
VWhy(p, s, e) == <<s, e>>
T == INSTANCE TraceLib WITH St <- VSt, Start <- VStart, Why <- VWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
