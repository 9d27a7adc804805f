----------------------------- MODULE ExtractLibTrace ----------------------------
(* Judges single calls of the building blocks of the extraction package.            *)
EXTENDS Polar, Blocks, FiniteSets, TLC, TraceFile
VARIABLES sc, l, st

P32(p) == [i \in 1..Len(p) |-> <<F32(p[i][1]), F32(p[i][2])>>]
Norm(q) == FSqrt(FAdd(FSq(q[1]), FSq(q[2])))
Dot(a, b) == FAdd(FMul(a[1], b[1]), FMul(a[2], b[2]))
Between(a, b) == FAtan2(FAbs(Cross(a, b)), Dot(a, b))

(* ------------------------------------------------------------ order (F04)          *)
BadLess(p, m) == {ij \in (1..Len(p)) \X (1..Len(p)) : m[ij[1]][ij[2]] # PolarLess(p[ij[1]], p[ij[2]])}
Rearranged(idx, res) ==
  /\ Len(idx) = Len(res)
  /\ {idx[i] : i \in 1..Len(idx)} = {res[i] : i \in 1..Len(res)}
At(p, idx) == [i \in 1..Len(idx) |-> p[idx[i] + 1]]
RingsOk(a, r) ==
  LET p == P32(a.pts)
      ring(i) == a.pts[i + 1][3]
      ids == {i - 1 : i \in 1..Len(p)}
      all == r.all  kept == r.kept
      of(k) == {i \in ids : ring(i) = k}
      keys(x) == {x[i][1] : i \in 1..Len(x)}
  IN /\ keys(all) = {ring(i) : i \in ids} /\ Len(all) = Cardinality(keys(all))
     /\ \A k \in 1..Len(all) :
          /\ {all[k][2][i] : i \in 1..Len(all[k][2])} = of(all[k][1])
          /\ Len(all[k][2]) = Cardinality(of(all[k][1]))
          /\ Sorted(At(p, all[k][2]))
     /\ {kept[i] : i \in 1..Len(kept)} = {all[i] : i \in {i \in 1..Len(all) : Len(all[i][2]) >= a.min}}

(* ------------------------------------------------------------ blocks (F05)         *)
BlocksOk(start, end, n, r) ==
  IF Rejected(start, end, n) THEN ~r.ok
  ELSE /\ r.ok /\ r.v.n = n
       /\ Partition(start, end, n, r.v.b)
       /\ \A i \in 1..Len(r.v.outside) : r.v.outside[i] = "refused"

(* ------------------------------------------------------------ numbers (F07)        *)
Near(x, y) == FClose(x, y, "1e-9", "1e-300")
SeqNear(x, y, scale) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : FClose(x[i], y[i], "1e-9", FMul("1e-12", scale))
RangesOk(a, r) ==
  LET p == P32(a.pts)
      q == At(p, a.idx)
      want == [i \in 1..Len(q) |-> Norm(q[i])]
      close(x, y) == FClose(x, y, "1e-6", "1e-40")
  IN /\ Len(r.each) = Len(q) /\ \A i \in 1..Len(q) : close(r.each[i], want[i])
     /\ Len(r.intervals) = Len(a.intervals)
     /\ \A k \in 1..Len(a.intervals) :
          LET b == a.intervals[k][1]  e == a.intervals[k][2]  s == r.intervals[k] IN
          Len(s) = e - b /\ \A i \in 1..(e - b) : close(s[i], want[b + i])
(* "1", "0", "refused", or "any" when rounding or a point without direction leaves it open *)
Adjacent(a, b, thr) ==
  IF AtOrigin(a) /\ AtOrigin(b) THEN "refused"
  ELSE IF AtOrigin(a) \/ AtOrigin(b) THEN "any"
  ELSE LET d == FSub(Between(a, b), thr) IN
       IF FLe(FAbs(d), "1e-7") THEN "any" ELSE IF FLt(d, 0) THEN "1" ELSE "0"
Fits(x, y) == x = "any" \/ x = y
AdjacentOk(a, r) ==
  LET q == At(P32(a.pts), a.idx)  n == Len(q) IN
  IF n < 2 THEN ~r.ok
  ELSE /\ r.ok /\ r.v.n = n
       /\ \A i, j \in 1..n : Fits(Adjacent(q[i], q[j], a.thr), r.v.m[i][j])
       /\ \A i \in 1..Len(r.v.outside) : r.v.outside[i] = "refused"
       /\ \A k \in 1..Len(a.slices) :
            LET b == a.slices[k][1]  e == a.slices[k][2]  s == r.v.slices[k] IN
            /\ s.n = e - b /\ Len(s.adj) = e - b - 1
            /\ \A i \in 1..(e - b - 1) : Fits(Adjacent(q[b + i], q[b + i + 1], a.thr), s.adj[i])
AngleOk(a, r) ==
  LET x == <<FOf(a.a[1]), FOf(a.a[2])>>  y == <<FOf(a.b[1]), FOf(a.b[2])>> IN
  IF AtOrigin(x) /\ AtOrigin(y) THEN ~r.ok
  ELSE IF AtOrigin(x) \/ AtOrigin(y) THEN TRUE
  ELSE r.ok /\ FLe(FAbs(FSub(r.v, Between(x, y))), "1e-7")
Sliding(v, w) ==
  LET p == (Len(w) - 1) \div 2 IN
  [i \in 1..Len(v) |-> IF i <= p \/ i > Len(v) - p THEN "0.0"
                       ELSE FSum([k \in 1..Len(w) |-> FMul(v[i - p + k - 1], w[k])])]
Largest(v) == IF v = <<>> THEN 0 ELSE FMaxOf([i \in 1..Len(v) |-> FAbs(v[i])])
ConvOk(a, r) ==
  IF Len(a.v) < Len(a.w) THEN ~r.ok
  ELSE r.ok /\ SeqNear(r.v, Sliding(a.v, a.w), FMul(Largest(a.v), Largest(a.w)))
Weight(p) == [k \in 1..(2 * p + 1) |-> IF k = p + 1 THEN FOf(0 - 2 * p) ELSE "1.0"]
Curvature(v, p) == LET s == Sliding(v, Weight(p)) IN [i \in 1..Len(v) |-> FSq(s[i])]
CurvOk(a, r) ==
  IF Len(a.v) < 2 * a.padding + 1 THEN ~r.ok
  ELSE LET c == Curvature(a.v, a.padding)
           big == FMul(a.padding, Largest(a.v)) IN
       /\ r.ok /\ Len(r.v) = Len(c)
       /\ \A i \in 1..Len(c) :      \* (s + e)^2 with |e| <= 1e-13 * big
            FClose(r.v[i], c[i], "1e-9", FAdd(FMul(FMul("1e-13", big), FSqrt(c[i])), FMul("1e-26", FSq(big))))
ArgsortOk(a, r) ==
  /\ Len(r) = Len(a.v) /\ {r[i] : i \in 1..Len(r)} = {i - 1 : i \in 1..Len(a.v)}
  /\ \A i \in 1..(Len(r) - 1) : FLe(a.v[r[i] + 1], a.v[r[i + 1] + 1])

(* ------------------------------------------------------------ labels (F01, F02)    *)
Adj(g) == [i \in 1..(Len(g) - 1) |-> g[i] = g[i + 1]]
CHigher(L, i, j) == FGt(L.curv[i], L.curv[j])
CEdge(L, i) == FGe(L.curv[i], L.et)
CSurf(L, i) == FLe(L.curv[i], L.st)
CJump(L, i, j) == FGt(L.rng[j], FAdd(L.rng[i], L.dt))
COut(L, i) == FLt(L.rng[i], L.lo) \/ FLt(L.hi, L.rng[i])
RatioTo(L, i, j) == FDiv(FAbs(FSub(L.rng[j], L.rng[i])), L.rng[i])
CPar(L, i) == FGt(RatioTo(L, i, i - 1), L.ratio) /\ FGt(RatioTo(L, i, i + 1), L.ratio)
Sl == INSTANCE ScanLine WITH Higher <- CHigher, EdgeQ <- CEdge, SurfQ <- CSurf, Jump <- CJump,
        OutQ <- COut, ParQ <- CPar, Cap <- 300
Chain(adj, i, j) == \A k \in (IF i < j THEN i ELSE j)..((IF i < j THEN j ELSE i) - 1) : adj[k]
(* a, b: 0-based; left: a .. b - 1, right: a + 1 .. b, around: a, padding b          *)
Filled(a, n) ==
  LET adj == Adj(a.groups) IN
  CASE a.kind = "left" -> {i \in (a.a + 1)..a.b : Chain(adj, a.a + 1, i)}
    [] a.kind = "right" -> {i \in (a.a + 2)..(a.b + 1) : Chain(adj, i, a.b + 1)}
    [] a.kind = "around" -> {i \in 1..n : i <= a.a + 1 + a.b /\ a.a + 1 <= i + a.b /\ Chain(adj, i, a.a + 1)}
FillRefused(a, n) ==
  CASE a.kind = "left" -> a.b > n \/ a.a < 0
    [] a.kind = "right" -> a.b >= n \/ a.a < -1
    [] a.kind = "around" -> a.a < 0 \/ a.a >= n
FillOk(a, r) ==
  LET n == Len(a.labels) IN
  IF FillRefused(a, n) THEN ~r.ok
  ELSE r.ok /\ r.v = [i \in 1..n |-> IF i \in Filled(a, n) THEN a.mark ELSE a.labels[i]]
SelectOk(a, r) ==
  LET n == Len(a.curv)
      L == [n |-> n, p |-> a.padding, nb |-> 1, adj |-> Adj(a.groups), curv |-> a.curv, et |-> a.edge, st |-> a.surface]
      B == 1..n
      es == TLCEval(Sl!Edges(L, B, [i \in B |-> "D"]))
      ss == IF r.edges \in es THEN TLCEval(Sl!Surfaces(L, B, r.edges)) ELSE {}
  IN es = {} \/ (r.edges \in es /\ (ss = {} \/ r.all \in ss))
UnreliableOk(a, r) ==
  LET q == P32(a.pts)  n == Len(q)
      L == TLCEval([n |-> n, p |-> a.padding, nb |-> 1, rng |-> [i \in 1..n |-> Norm(q[i])],
            adj |-> [i \in 1..(n - 1) |-> Adjacent(q[i], q[i + 1], a.thr) = "1"],
            dt |-> a.dist, lo |-> a.min, hi |-> a.max, ratio |-> a.ratio])
      occ == TLCEval(Sl!Occluded(L))
  IN /\ r.X = [i \in 1..n |-> IF i \in occ THEN "X" ELSE a.labels[i]]
     /\ r.O = [i \in 1..n |-> IF COut(L, i) THEN "O" ELSE a.labels[i]]
     /\ r.P = [i \in 1..n |-> IF i \in 2..(n - 1) /\ CPar(L, i) THEN "P" ELSE a.labels[i]]
Rgb(k) ==
  CASE k \in {"E", "S"} -> <<255, 0, 0>> [] k \in {"e", "s"} -> <<255, 63, 0>> [] k = "D" -> <<255, 255, 255>>
    [] k = "O" -> <<127, 127, 127>> [] k = "X" -> <<255, 0, 255>> [] k = "P" -> <<0, 255, 0>>
ColourOk(a, r) ==
  /\ Len(r) = Len(a.labels)
  /\ \A i \in 1..Len(r) : /\ \A k \in 1..3 : FEq(r[i][k], F32(a.pts[i][k]))
                          /\ <<r[i][4], r[i][5], r[i][6]>> = Rgb(a.labels[i])

OpOk(a, r) ==
  CASE a.op = "less" -> BadLess(P32(a.pts), r) = {}
    [] a.op = "sort" -> Rearranged(a.idx, r) /\ Sorted(At(P32(a.pts), r))
    [] a.op = "rings" -> RingsOk(a, r)
    [] a.op = "ring_field" -> r = (\E i \in 1..Len(a.names) : a.names[i] = "ring")
    [] a.op = "blocks" -> BlocksOk(a.start, a.end, a.n, r)
    [] a.op = "padded" -> BlocksOk(a.padding, a.size - a.padding, a.n, r)
    [] a.op = "ranges" -> RangesOk(a, r)
    [] a.op = "adjacent" -> AdjacentOk(a, r)
    [] a.op = "angle" -> AngleOk(a, r)
    [] a.op = "conv" -> ConvOk(a, r)
    [] a.op = "curv" -> CurvOk(a, r)
    [] a.op = "weight" -> Len(r) = 2 * a.padding + 1 /\ \A i \in 1..Len(r) : FEq(r[i], Weight(a.padding)[i])
    [] a.op = "argsort" -> ArgsortOk(a, r)
    [] a.op = "fill" -> FillOk(a, r)
    [] a.op = "select" -> SelectOk(a, r)
    [] a.op = "unreliable" -> UnreliableOk(a, r)
    [] a.op = "colour" -> ColourOk(a, r)
LSt(p, s, e) ==
  CASE e.ev = "Op" -> IF OpOk(e.step, e.res) THEN {"run"} ELSE {}
    [] e.ev = "End" -> {"end"}
    [] OTHER -> {}
LStart(p) == "start"
BadPairs(a, r) ==
  LET q == At(P32(a.pts), a.idx) IN
  {<<ij, q[ij[1]], q[ij[2]], Adjacent(q[ij[1]], q[ij[2]], a.thr), r.v.m[ij[1]][ij[2]]>> :
     ij \in {ij \in (1..Len(q)) \X (1..Len(q)) : ~Fits(Adjacent(q[ij[1]], q[ij[2]], a.thr), r.v.m[ij[1]][ij[2]])}}
LWhy(p, s, e) == IF e.ev = "Op" /\ e.step.op = "adjacent" /\ e.res.ok THEN <<"adjacency", BadPairs(e.step, e.res), e>> ELSE IF e.ev = "Op" /\ e.step.op = "less" THEN <<"pairs ordered wrongly", BadLess(P32(e.step.pts), e.res), e.step.pts>> ELSE e
T == INSTANCE TraceLib WITH St <- LSt, Start <- LStart, Why <- LWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
