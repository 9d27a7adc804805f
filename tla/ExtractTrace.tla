------------------------------ MODULE ExtractTrace ------------------------------
(* Judges recorded runs of the feature extraction node.  In the scenarios the z     *)
(* coordinate of a point is its 1-based position in the scan, which identifies it.   *)
EXTENDS Polar, TLC, FiniteSets, TraceFile
VARIABLES sc, l, st

Par(p, k, dflt) == IF k \in DOMAIN p THEN p[k] ELSE dflt
Padding(p) == Par(p, "convolution_padding", 5)

(* ------------------------------------------------- numeric facts about a line     *)
Mk(p, pts) ==      \* pts: the points of the line in order
  LET n == Len(pts)
      pad == Padding(p)
      thr == FMul(Par(p, "neighbor_degree_threshold", "2.0"), FDiv(FAcos("-1.0"), 180))
      rng == TLCEval([i \in 1..n |-> FSqrt(FAdd(FSq(pts[i][1]), FSq(pts[i][2])))])
      dev == TLCEval([i \in 1..n |-> IF i <= pad \/ i > n - pad THEN "0.0"
                ELSE FSum([k \in 1..(2 * pad) |-> FSub(rng[IF k <= pad THEN i - k ELSE i + k - pad], rng[i])])])
      top == FMax(1, FMaxOf(rng))
      eps == FMul(top, FMul("1e-14", pad + 1))        \* accuracy of dev
      cos(i) == FAdd(FMul(pts[i][1], pts[i + 1][1]), FMul(pts[i][2], pts[i + 1][2]))
      ang == TLCEval([i \in 1..(n - 1) |->
               IF AtOrigin(pts[i]) \/ AtOrigin(pts[i + 1]) THEN "nan"
               ELSE FAtan2(FAbs(Cross(pts[i], pts[i + 1])), cos(i))])
  IN [n |-> n, p |-> pad, nb |-> Par(p, "n_blocks", 6), rng |-> rng, dev |-> dev, eps |-> eps,
      curv |-> TLCEval([i \in 1..n |-> FSq(dev[i])]),
      ceps |-> TLCEval([i \in 1..n |-> FMul(FAdd(FAbs(dev[i]), eps), FMul(2, eps))]),
      ang |-> ang, thr |-> thr,
      adj |-> TLCEval([i \in 1..(n - 1) |-> FLt(ang[i], thr)]),
      et |-> Par(p, "edge_threshold", "0.05"), s |-> Par(p, "surface_threshold", "0.05"),
      dt |-> Par(p, "distance_diff_threshold", "0.3"),
      lo |-> Par(p, "min_range", "0.1"), hi |-> Par(p, "max_range", "100.0"),
      ratio |-> Par(p, "parallel_beam_min_range_ratio", "0.02"),
      pts |-> pts]
NHigher(L, i, j) == FGt(FSub(L.curv[i], L.curv[j]), FAdd(L.ceps[i], L.ceps[j]))
NEdge(L, i) == FGe(L.curv[i], L.et)
NSurf(L, i) == FLe(L.curv[i], L.s)
NJump(L, i, j) == FGt(L.rng[j], FAdd(L.rng[i], L.dt))
NOut(L, i) == ~(FLe(L.lo, L.rng[i]) /\ FLe(L.rng[i], L.hi))
RatioTo(L, i, j) == FDiv(FAbs(FSub(L.rng[j], L.rng[i])), L.rng[i])
NPar(L, i) == FGt(RatioTo(L, i, i - 1), L.ratio) /\ FGt(RatioTo(L, i, i + 1), L.ratio)
Sl == INSTANCE ScanLine WITH Higher <- NHigher, EdgeQ <- NEdge, SurfQ <- NSurf, Jump <- NJump,
        OutQ <- NOut, ParQ <- NPar, Cap <- 64

(* a decision is open when rounding can turn it; equal values are decided           *)
Open(a, b, eps) == ~FEq(a, b) /\ FLe(FAbs(FSub(a, b)), eps)
OpenRatio(L, r) == IF FEq(r, L.ratio) THEN ~FEq(F32(r), r) ELSE FLe(FAbs(FSub(r, L.ratio)), FMul(L.ratio, "1e-6"))
Undecided(L) ==
  \/ \E i \in 1..(L.n - 1) : Open(L.ang[i], L.thr, "1e-7")
  \/ \E i \in 1..L.n :
       \/ Open(L.curv[i], L.et, L.ceps[i]) \/ Open(L.curv[i], L.s, L.ceps[i])
       \/ Open(L.rng[i], L.lo, FMul(L.rng[i], "1e-14")) \/ Open(L.rng[i], L.hi, FMul(L.rng[i], "1e-14"))
       \/ i > 1 /\ Open(FAbs(FSub(L.rng[i], L.rng[i - 1])), L.dt, "1e-12")
       \/ i > 1 /\ OpenRatio(L, RatioTo(L, i, i - 1))
       \/ i < L.n /\ OpenRatio(L, RatioTo(L, i, i + 1))

(* ------------------------------------------------- the scan and its rings          *)
Col(m, name) == CHOOSE k \in 1..Len(m.fields) : m.fields[k][1] = name
Points(m) ==
  LET x == Col(m, "x") y == Col(m, "y") z == Col(m, "z") r == Col(m, "ring") IN
  [i \in 1..Len(m.points) |-> <<m.points[i][x], m.points[i][y], m.points[i][z], m.points[i][r]>>]
RingsOf(P) == {FTrunc(P[i][4]) : i \in 1..Len(P)}

(* a line is skipped when it is too short or two neighbouring points have no direction *)
Skipped(p, pts) ==
  LET L == [n |-> Len(pts), p |-> Padding(p), nb |-> Par(p, "n_blocks", 6)] IN
  \/ L.n < 2 * L.p + 1 \/ ~Sl!Processable(L)
  \/ \E i \in 1..(L.n - 1) : AtOrigin(pts[i]) /\ AtOrigin(pts[i + 1])
Origins(P, ids) == Cardinality({i \in ids : AtOrigin(P[i])})
MustSkip(p, P, ids) ==
  LET L == [n |-> Cardinality(ids), p |-> Padding(p), nb |-> Par(p, "n_blocks", 6)] IN
  \/ L.n < 2 * L.p + 1 \/ ~Sl!Processable(L)
MaySkip(p, P, ids) == MustSkip(p, P, ids) \/ Origins(P, ids) >= 2
Colour(k) ==
  CASE k \in {"E", "S"} -> 16711680       \* 255, 0, 0
    [] k \in {"e", "s"} -> 16727808       \* 255, 63, 0
    [] k = "D" -> 16777215
    [] k = "O" -> 8355711                 \* 127, 127, 127
    [] k = "X" -> 16711935                \* 255, 0, 255
    [] k = "P" -> 65280                   \* 0, 255, 0

(* out: positions in the scan, in published order                                    *)
Cloud(e, topic) == LET k == {j \in 1..Len(e.out) : e.out[j].topic = topic} IN
                   IF Cardinality(k) = 1 THEN <<e.out[CHOOSE j \in k : TRUE].msg>> ELSE <<>>
Names(m) == [k \in 1..Len(m.fields) |-> m.fields[k][1]]
Ids(m) == [i \in 1..Len(m.points) |-> FTrunc(m.points[i][Col(m, "z")])]
SamePoints(P, m) ==
  \A i \in 1..Len(m.points) :
    LET id == FTrunc(m.points[i][Col(m, "z")]) IN
    /\ id \in 1..Len(P)
    /\ FEq(m.points[i][Col(m, "z")], P[id][3])
    /\ FEq(m.points[i][Col(m, "x")], P[id][1]) /\ FEq(m.points[i][Col(m, "y")], P[id][2])
NoRepeats(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
CloudOk(e, m, P) ==
  /\ m.wellformed /\ {"x", "y", "z"} \subseteq {m.fields[k][1] : k \in 1..Len(m.fields)}
  /\ m.header.frame = "lidar_feature_base_link" /\ m.header.stamp = e.step.msg.header.stamp
  /\ m.height * m.width = Len(m.points)
  /\ SamePoints(P, m) /\ NoRepeats(Ids(m))

(* one processed line: order is the published order of its points                    *)
Idx(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
LineVerdict(p, P, order, col, edge, surf) ==
  LET pts == TLCEval([i \in 1..Len(order) |-> <<P[order[i]][1], P[order[i]][2]>>])
      L == TLCEval(Mk(p, pts))
      occ == TLCEval(Sl!Occluded(L))
      es == {Idx(order, edge[k]) : k \in {k \in 1..Len(edge) : edge[k] \in {order[i] : i \in 1..Len(order)}}}
      ss == {Idx(order, surf[k]) : k \in {k \in 1..Len(surf) : surf[k] \in {order[i] : i \in 1..Len(order)}}}
      Shows(i, k) == LET f == Sl!Final(L, occ, k, i) IN
                     /\ col[order[i]] = Colour(f) /\ (i \in es) = (f = "E") /\ (i \in ss) = (f = "S")
      badEnd == {i \in (1..L.p) \cup ((L.n - L.p + 1)..L.n) : ~Shows(i, "D")}
      badBlock == {j \in 1..L.nb :
                     LET B == Sl!Block(L, j)  all == Sl!BlockLabels(L, B) IN
                     all # {} /\ ~\E lab \in all : \A i \in B : Shows(i, lab[i])}
  IN IF ~Sorted(pts) THEN <<"not in angular order", order>>
     ELSE IF Undecided(L) THEN <<>>
     ELSE IF badEnd # {} THEN <<"end of line labelled", badEnd, "line", order>>
     ELSE IF badBlock # {} THEN
       LET j == CHOOSE j \in badBlock : TRUE
           B == Sl!Block(L, j)
           lab == CHOOSE x \in Sl!BlockLabels(L, B) : TRUE IN
       <<"block", j, "of line", order, "expected", [i \in B |-> <<order[i], Sl!Final(L, occ, lab[i], i)>>],
         "edges", es, "surfaces", ss, "colours", [i \in B |-> col[order[i]]]>>
     ELSE <<>>

Verdict(p, e) ==
  LET P == TLCEval(Points(e.step.msg))
      rings == RingsOf(P)
      ids == TLCEval([r \in rings |-> {i \in 1..Len(P) : FTrunc(P[i][4]) = r}])
      c == Cloud(e, "colored_scan")  g == Cloud(e, "scan_edge")  s == Cloud(e, "scan_surface")
  IN IF ~(e.delivered = 1 /\ e.ok /\ Len(e.out) = 3 /\ c # <<>> /\ g # <<>> /\ s # <<>>) THEN <<"messages", e.delivered, e.ok, Len(e.out)>>
     ELSE IF ~(CloudOk(e, c[1], P) /\ CloudOk(e, g[1], P) /\ CloudOk(e, s[1], P)) THEN <<"output clouds", g, s>>
     ELSE
     LET co == TLCEval(Ids(c[1]))  eo == TLCEval(Ids(g[1]))  so == TLCEval(Ids(s[1]))
         k == Col(c[1], "rgb")
         col == TLCEval([i \in {co[j] : j \in 1..Len(co)} |-> LET j == Idx(co, i) IN c[1].points[j][k]])
         shown == {co[j] : j \in 1..Len(co)}
         order(r) == SelectSeq(co, LAMBDA i : FTrunc(P[i][4]) = r)
         bad == {r \in rings :
                   \/ ids[r] \cap shown \notin {{}, ids[r]}
                   \/ ids[r] \cap shown # {} /\ (MustSkip(p, P, ids[r]) \/ Skipped(p, [i \in 1..Len(order(r)) |-> P[order(r)[i]]]))
                   \/ ids[r] \cap shown = {} /\ ~MaySkip(p, P, ids[r])}
         E == {eo[i] : i \in 1..Len(eo)}  F == {so[i] : i \in 1..Len(so)}
     IN IF bad # {} THEN <<"rings wrongly processed, skipped or incomplete", bad>>
        ELSE IF E \cap F # {} \/ ~((E \cup F) \subseteq shown) THEN <<"features", E \cap F, (E \cup F) \ shown>>
        ELSE LET v == {x \in {LineVerdict(p, P, order(r), col, eo, so) : r \in {r \in rings : ids[r] \cap shown # {}}} : x # <<>>}
             IN IF v = {} THEN <<>> ELSE CHOOSE x \in v : TRUE

Topics(e) == {e.pubs[k].topic : k \in 1..Len(e.pubs)}
XSt(p, s, e) ==
  CASE e.ev = "Start" -> IF /\ e.out = <<>> /\ e.ok /\ e.subs = <<"points_raw">>
                            /\ {"colored_scan", "scan_edge", "scan_surface"} \subseteq Topics(e) THEN {"run"} ELSE {}
    [] e.ev = "Exit" -> IF e.rc = 0 /\ ~e.threw /\ e.out = <<>> THEN {"end"} ELSE {}
    [] e.ev = "Msg" -> IF Verdict(p, e) = <<>> THEN {"run"} ELSE {}
    [] OTHER -> {}
XStart(p) == "start"
XWhy(p, s, e) == IF e.ev = "Msg" THEN Verdict(p, e) ELSE e
T == INSTANCE TraceLib WITH St <- XSt, Start <- XStart, Why <- XWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
