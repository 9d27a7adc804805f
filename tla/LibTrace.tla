-------------------------------- MODULE LibTrace --------------------------------
(* Judges single calls of the rotation, statistics and conversion functions.           *)
EXTENDS Conversions, Robust, TraceFile
VARIABLES sc, l, st
Tiny == "1e-9"
Biggest(m) == FMaxOf([i \in 1..Len(m) |-> FMaxOf([j \in 1..Len(m[i]) |-> FAbs(m[i][j])])])
MNear(a, b) == Len(a) = Len(b) /\ (b = <<>> \/ (Len(a[1]) = Len(b[1]) /\ MClose(a, b, Tiny, FMul(Tiny, FAdd("1e-3", Biggest(b))))))
VNear(a, b) == MNear(<<a>>, <<b>>)
MSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : FEq(a[i][j], b[i][j])
VSame(a, b) == MSame(<<a>>, <<b>>)
MFloat(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> F32(m[i][j])]]
MFloatNear(a, b) == Len(a) = Len(b) /\ (b = <<>> \/ MClose(a, b, "1e-6", FMul("1e-6", FAdd(1, Biggest(b)))))
Xyz(m) == [i \in 1..Len(m) |-> <<m[i][1], m[i][2], m[i][3]>>]
QUnitOf(q) == VMul(q, FDiv(1, VNorm(q)))
TOf(p) == PoseOf(QUnitOf(p.q), p.p)
QNear(a, b) == VNear(a, b) \/ VNear(a, QNeg(b))
(* a message describes a pose                                                            *)
Tells(m, p) == VSame(m.p, p.p) /\ QNear(m.q, QUnitOf(p.q))
HeadIs(h, s) == h.sec = s.stamp.sec /\ h.nsec = s.stamp.nsec /\ h.frame = s.frame
Either(r, ok, f(_)) == r.ok = ok /\ (ok => f(r.v))
Matches(cells, r, slack) ==
  /\ Len(r) = Cardinality(cells)
  /\ \A c \in cells : \E i \in 1..Len(r) : MClose(<<r[i]>>, <<c>>, slack, slack)
  /\ \A i \in 1..Len(r) : \E c \in cells : MClose(<<r[i]>>, <<c>>, slack, slack)

OpOk(a, r) ==
  CASE a.op = "hat" -> MSame(r, Skew(a.v))
    [] a.op = "left" -> MSame(r, QLeft(a.q))
    [] a.op = "right" -> MSame(r, QRight(a.q))
    [] a.op = "rpy" -> VNear(r, QRpy(a.v[1], a.v[2], a.v[3]))
    [] a.op = "exp" -> VClose(r, QExp(a.v), Tiny, "6e-9") /\ FClose(VNorm(r), 1, Tiny, 0)
    [] a.op = "drpdq" -> MNear(r, DRot(a.q, a.p))
    [] a.op = "wxyz" -> VSame(r.q, a.v) /\ VSame(r.v, a.v)
    [] a.op = "median" -> LET some == a.v # <<>>  f(x) == FEq(x, MedianOf(a.v)) IN Either(r.v, some, f) /\ Either(r.a, some, f)
    [] a.op = "mad" -> LET f(x) == FClose(x, Deviation(a.v), "1e-12", "1e-300") IN Either(r, a.v # <<>>, f)
    [] a.op = "scale" -> LET f(x) == FClose(x, SpreadOf(a.v), "1e-12", "1e-300") IN Either(r, a.v # <<>>, f)
    [] a.op = "huber" -> FClose(r.c, HuberCost(a.e, a.k), "1e-12", "1e-300") /\ FClose(r.d, HuberSlope(a.e, a.k), "1e-12", 0)
    [] a.op = "huber0" -> FClose(r.c, HuberCost(a.e, HuberK), "1e-12", "1e-300") /\ FClose(r.d, HuberSlope(a.e, HuberK), "1e-12", 0)
    [] a.op = "sort3" -> VSame(r, Ascending(a.v))
    [] a.op = "sd" -> LET m == FMaxOf([i \in 1..Len(a.v) |-> FAbs(a.v[i])]) IN FClose(r, Deviance(a.v), Tiny, FMul("1e-12", m))
    [] a.op = "shuffle" -> Permutation(r, a.n)
    [] a.op = "special" ->
         LET all == {a.m[i][j] : i \in 1..Len(a.m), j \in 1..(IF a.m = <<>> THEN 0 ELSE Len(a.m[1]))} IN
         /\ r.nan = (\E x \in all : FIsNaN(x)) /\ r.inf = (\E x \in all : ~FIsNaN(x) /\ ~FIsFinite(x))
    [] a.op = "radian" -> FClose(r, FDiv(FMul(a.v, FAcos("-1.0")), 180), "1e-12", "1e-300")
    [] a.op = "pose" -> Tells(r.msg, a.pose) /\ MNear(r.back, TOf(a.pose))
    [] a.op = "pose_msg" -> MNear(r, PoseOf(a.msg.q, a.msg.p))
    [] a.op = "stamped" ->
         /\ HeadIs(r.pose.h, a) /\ Tells(r.pose.pose, a.pose)
         /\ HeadIs(r.cov.h, a) /\ Tells(r.cov.pose, a.pose) /\ VSame(r.cov.cov, Flat(a.cov))
         /\ HeadIs(r.tf.h, a) /\ r.tf.child = a.child /\ Tells(r.tf.pose, a.pose)
         /\ Tells(r.bare.pose, a.pose) /\ VSame(r.bare.cov, Flat(a.cov))
    [] a.op = "twist" -> HeadIs(r.h, a) /\ VSame(r.l, a.l) /\ VSame(r.a, a.a) /\ VSame(r.bl, a.l) /\ VSame(r.ba, a.a)
    [] a.op = "vector" -> VSame(r.point, a.v) /\ VSame(r.vector, a.v) /\ VSame(r.p, a.v) /\ VSame(r.v, a.v) /\ VSame(r.q, a.q)
                          /\ MSame(r.xyz, MFloat(<<a.v>>))
    [] a.op = "covariance" -> MSame(r.m, Square(a.a, 6)) /\ VSame(r.back, a.a) /\ VSame(r.from, Flat(a.m))
    [] a.op = "marker" -> /\ HeadIs(r.h, a) /\ r.list /\ FEq(r.width, F32(a.width)) /\ VSame(r.c, MFloat(<<a.c>>)[1])
                          /\ MSame(r.points, Stacked(a.lines))
    [] a.op = "rows" -> MSame(r, RowsAt(a.m, a.idx))
    [] a.op = "stack" -> MSame(r.v, a.v) /\ MSame(r.m, Stacked(a.m)) /\ VSame(r.flat, a.flat)
    [] a.op = "xform" -> LET e == Moved(TOf(a.pose), a.v) IN VNear(SubSeq(r, 1, 3), SubSeq(e, 1, 3)) /\ VSame(SubSeq(r, 4, Len(r)), SubSeq(e, 4, Len(e)))
    [] a.op = "isometry" -> MNear(r, PoseOf(a.q, a.t)) /\ VSame(PTr(r), a.t)
    [] a.op = "by_index" ->
         LET f(x) == x = RowsAt(a.v, a.idx) IN
         Either(r.v, \A i \in 1..Len(a.idx) : a.idx[i] < Len(a.v), f) /\ r.where = Where(a.v, a.label)
    [] a.op = "span" ->
         LET part == SubSeq(a.v, a.from + 1, a.to)  n == a.to - a.from
             at(k, x) == LET f(y) == y = part[k + 1] IN Either(x, k >= 0 /\ k < n, f)
         IN /\ r.size = n /\ r.csize = n /\ r.all = part /\ Len(r.at) = Len(a.at)
            /\ \A i \in 1..Len(a.at) : at(a.at[i], r.at[i].s) /\ at(a.at[i], r.at[i].c)
            /\ r.after = [i \in 1..Len(a.v) |-> IF n > 0 /\ i = a.to THEN 77 ELSE a.v[i]]
    [] a.op = "cloud" ->
         LET P == TLCEval(MFloat(a.pts))  T == TLCEval(TOf(a.pose))
             M == TLCEval([i \in 1..Len(P) |-> Moved(T, P[i])])
         IN /\ MSame(r.get, Xyz(RowsAt(P, a.idx))) /\ MSame(r.points, Xyz(P)) /\ MSame(r.xyz, Xyz(P)) /\ MSame(r.kept, Xyz(P))
            /\ MFloatNear(r.moved, Xyz(M)) /\ MFloatNear(r.moved_cr, M) /\ MSame([i \in 1..Len(r.moved_cr) |-> SubSeq(r.moved_cr[i], 4, 5)], [i \in 1..Len(P) |-> SubSeq(P[i], 4, 5)])
            /\ MSame(r.plain, Xyz(P)) /\ MSame(r.to_ir, [i \in 1..Len(P) |-> <<P[i][1], P[i][2], P[i][3], "0.0", P[i][5]>>])
            /\ r.refused = (a.pts = <<>>)
    [] a.op = "downsample" -> Matches(CellMeans(MFloat(a.pts), F32(a.leaf)), r, "1e-4")
    [] a.op = "ros_cloud" ->
         LET P == MFloat(a.pts) IN
         /\ HeadIs(r.h, a) /\ r.n = Len(P) /\ MSame(r.back, P) /\ MSame(r.cr, P) /\ MSame(r.xyz, Xyz(P)) /\ MSame(r.crxyz, Xyz(P))
LSt(p, s, e) ==
  CASE e.ev = "Op" -> IF OpOk(e.step, e.res) THEN {"run"} ELSE {}
    [] e.ev = "End" -> {"end"}
    [] OTHER -> {}
LStart(p) == "start"
LWhy(p, s, e) == e
Tr == INSTANCE TraceLib WITH St <- LSt, Start <- LStart, Why <- LWhy
Spec == Tr!TInit /\ [][Tr!TNext]_<<sc, l, st>>
================================================================================
