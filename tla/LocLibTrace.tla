------------------------------- MODULE LocLibTrace ------------------------------
(* Judges single calls of the building blocks of the localization package.            *)
EXTENDS LocalMap, TraceFile
VARIABLES sc, l, st

P32(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |-> F32(p[i][j])]]
Num(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |-> FOf(p[i][j])]]
QUnitOf(q) == VMul(q, FDiv(1, VNorm(q)))
T(a) == PoseOf(QUnitOf(a.pose.q), a.pose.p)

(* k nearest: exactly the k smallest distances, in order, each with a point of the map *)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
KnnOk(map, p, k, r) ==
  LET d == TLCEval(SortSeq([i \in 1..Len(map) |-> SqDist(map[i], p)], LAMBDA a, b : FLt(a, b)))
      X == TLCEval(Num(r.x))
  IN /\ Len(X) = k /\ Len(r.d) = k
     /\ \A i \in 1..k : FClose(r.d[i], d[i], "1e-9", "1e-12") /\ FClose(SqDist(X[i], p), r.d[i], "1e-9", "1e-12")
     /\ \A i \in 1..(k - 1) : FLe(r.d[i], r.d[i + 1])
     /\ \A i \in 1..k : Times(X, X[i]) <= Times(map, X[i])
QueriesOk(map, a, r) == Len(r) = Len(a.queries) /\ \A i \in 1..Len(r) : KnnOk(map, a.queries[i].p, a.queries[i].k, r[i])

StepNear(a, r) ==
  \E x \in Steps(a.q, a.w, a.J, a.r) :
    LET dq == QExp(Head3(x)) IN VNear(r.dt, Tail3(x)) /\ (VNear(r.dq, dq) \/ VNear(r.dq, QNeg(dq)))
WStepNear(a, r) ==
  LET d == Degenerate(Information(a.J)) IN
  \/ d # "no" /\ \A i \in 1..6 : FEq(r[i], 0)
  \/ d # "yes" /\ VNear(r, LeastSquares(a.M, a.w, a.J, a.r))
Seqs(x) == [i \in 1..Len(x) |-> FOf(x[i])]
Kept(f, v) == LET idx == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : f[i]) IN [i \in 1..Len(idx) |-> v[idx[i]]]

OpOk(a, r) ==
  CASE a.op = "errors" -> Len(r) = Len(a.r) /\ \A i \in 1..Len(r) : FClose(r[i], Errors(a.r)[i], "1e-12", 0)
    [] a.op = "normalize" -> IF a.e = <<>> THEN ~r.ok ELSE
         LET s == SpreadOf(a.e) IN /\ r.ok /\ FClose(r.v.scale, s, "1e-9", FMul("1e-14", FMaxOf(a.e)))
           /\ Len(r.v.n) = Len(a.e) /\ \A i \in 1..Len(a.e) : FClose(r.v.n[i], FDiv(a.e[i], FAdd(r.v.scale, "1e-16")), "1e-9", 0)
    [] a.op = "weights" -> Len(r) = Len(a.e) /\ \A i \in 1..Len(r) : FClose(r[i], HuberSlope(a.e[i], HuberK), "1e-9", 0)
    [] a.op = "step" -> StepNear(a, r)
    [] a.op = "wupdate" -> WStepNear(a, r)
    [] a.op = "makem" -> MNear(r, Tangent(a.q))
    [] a.op = "converged" -> r \in Converged(a.q, a.t)
    [] a.op = "degenerate" -> LET d == Degenerate(a.m) IN d = "open" \/ r = (d = "yes")
    [] a.op = "exp" -> LET q == QExp(a.v) IN VNear(r, q)
    [] a.op = "pose" -> MNear(r, PoseOf(a.q, a.t))
    [] a.op = "edge" -> EdgeRowsOk(P32(a.map), a.k, P32(a.scan), T(a), r.J, r.r)
    [] a.op = "surface" -> SurfaceRowsOk(P32(a.map), a.k, P32(a.scan), T(a), r.J, r.r)
    [] a.op = "loam" ->
         LET n == Len(a.edge)  m == Len(r.J) IN
         /\ m >= n /\ Len(r.r) = m
         /\ EdgeRowsOk(P32(a.edge_map), a.k, P32(a.edge), T(a), SubSeq(r.J, 1, n), SubSeq(r.r, 1, n))
         /\ SurfaceRowsOk(P32(a.surface_map), a.k, P32(a.surface), T(a), SubSeq(r.J, n + 1, m), SubSeq(r.r, n + 1, m))
    [] a.op = "align" ->
         /\ Len(r.J) = Len(a.x) /\ Len(r.r) = Len(a.x)
         /\ \A i \in 1..Len(a.x) : /\ VNear(r.r[i], VSub(PMul(T(a), a.x[i]), a.y[i]))
                                   /\ \E q \in Signs(PRot(T(a))) : MNear(r.J[i], AlignRows(q, a.x[i]))
    [] a.op = "triplet" -> VNear(r, VCross(VSub(a.c, a.b), VCross(VSub(a.a, a.b), VSub(a.a, a.c))))
    [] a.op = "edge_row" ->
         /\ VNear(r.r, LineResidual(PMul(T(a), a.a), a.b, a.c))
         /\ \E q \in Signs(PRot(T(a))) : MNear(r.J, LineRows(q, a.a, a.b, a.c))
    [] a.op = "surface_row" ->
         /\ FClose(r.r, PlaneDistance(a.w, PMul(T(a), a.a)), Rel, Rel) /\ FClose(r.d, FAbs(PlaneDistance(a.w, a.a)), Rel, Rel)
         /\ \E q \in Signs(PRot(T(a))) : MNear(r.J, <<PlaneRow(a.w, q, a.a)>>)
    [] a.op = "rows" ->
         Len(r) = Len(a.p) /\ \A i \in 1..Len(r) : \E q \in Signs(PRot(T(a))) :
           LET L == MMul(<<a.c[i]>>, DRot(q, a.p[i])) IN VNear(r[i], L[1] \o a.c[i])
    [] a.op = "meancov" -> VNear(r.m, MeanOf(a.x)) /\ MNear(r.c, CovOf(a.x))
    [] a.op = "principal" ->
         LET e == Eigenvalues(a.m) IN
         /\ MClose(<<r.v>>, <<e>>, "1e-6", FMul("1e-6", FAbs(e[3])))
         /\ \A j \in 1..3 : LET u == [i \in 1..3 |-> r.m[i][j]] IN
              /\ FClose(VNorm(u), 1, Rel, 0)
              /\ FLe(VNorm(VSub(MVec(MMul(a.m, MCol(u))), VMul(u, e[j]))), FMul("1e-5", FAbs(e[3])))
         /\ FClose(e[3], FMul(3, e[2]), Rel, 0) \/ r.reliable = FLt(FMul(3, e[2]), e[3])
    [] a.op = "plane" ->
         LET w == PlaneOf(a.x)  d == [i \in 1..Len(a.x) |-> FAbs(PlaneDistance(w, a.x[i]))] IN
         /\ MClose(<<r.w>>, <<w>>, "1e-6", "1e-6")
         /\ (\E i \in 1..Len(d) : FClose(d[i], "0.2", "1e-6", 0)) \/ r.along = (\A i \in 1..Len(d) : FLe(d[i], "0.2"))
    [] a.op = "solve" ->      \* least squares: the remainder is orthogonal to every column
         LET e == MSub(MMul(a.a, MCol(r)), MCol(a.b)) IN MClose(MMul(MT(a.a), e), MZero(Len(r), 1), "0.0", "1e-6")
    [] a.op = "knn" -> QueriesOk(Num(a.map), a, r)
    [] a.op = "knn_cloud" -> QueriesOk(P32(a.map), a, r)
    [] a.op = "tomatrix" ->
         LET p == P32(a.pts)  xyz == [i \in 1..Len(p) |-> <<p[i][1], p[i][2], p[i][3]>>] IN
         Num(r.xyzc) = p /\ Num(r.xyz) = xyz /\ Num(r.plain) = xyz
    [] a.op = "filter" -> r = Kept(a.flags, a.v)
    [] a.op = "median" -> IF a.v = <<>> THEN ~r.ok ELSE r.ok /\ FClose(r.v, Deviation(a.v), "1e-12", "1e-300")
    [] a.op = "scale" -> IF a.v = <<>> THEN ~r.ok ELSE r.ok /\ FClose(r.v, SpreadOf(a.v), "1e-12", "1e-300")
    [] a.op = "huber" -> FClose(r.c, HuberCost(a.e, a.k), "1e-12", "1e-300") /\ FClose(r.d, HuberSlope(a.e, a.k), "1e-12", 0)
    [] a.op = "huber0" -> FClose(r.c, HuberCost(a.e, HuberK), "1e-12", "1e-300") /\ FClose(r.d, HuberSlope(a.e, HuberK), "1e-12", 0)
LSt(p, s, e) ==
  CASE e.ev = "Op" -> IF OpOk(e.step, e.res) THEN {"run"} ELSE {}
    [] e.ev = "End" -> {"end"}
    [] OTHER -> {}
LStart(p) == "start"
LWhy(p, s, e) == e
Tr == INSTANCE TraceLib WITH St <- LSt, Start <- LStart, Why <- LWhy
Spec == Tr!TInit /\ [][Tr!TNext]_<<sc, l, st>>
================================================================================
