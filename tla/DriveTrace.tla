------------------------------- MODULE DriveTrace --------------------------------
(* Judges a drive through a simulated room recorded from the real nodes.               *)
EXTENDS Drive, TraceFile
VARIABLES sc, l, st
Big(v) == FMaxOf([i \in 1..Len(v) |-> FAbs(v[i])])
Time(h) == <<h.sec, h.nsec>>
(* a map under construction: the key clouds with their transforms                        *)
NoMap == [key |-> <<>>, clouds |-> <<>>]
Start0 == [edge |-> NoMap, surface |-> NoMap, file |-> <<>>, ask |-> <<>>, told |-> <<>>, mark |-> <<>>, fed |-> <<>>, asked |-> 0, on |-> FALSE, first |-> <<>>, since |-> 7, bad |-> 0]
Keyed(m, x, cloud) ==
  LET new == [key |-> <<x>>, clouds |-> Append(m.clouds, [T |-> TLCEval(Trans(x)), big |-> Big(x.p), pts |-> cloud])] IN
  IF cloud = <<>> THEN {m} ELSE IF m.key = <<>> THEN {new} ELSE {IF near THEN m ELSE new : near \in Near(m.key[1], x, Metres, Turn)}
Scan(s, e) ==
  IF e.surface = <<>> \/ (e.sensor # <<>> /\ ~(Seen(e.edge, e.sensor) /\ Seen(e.surface, e.sensor))) THEN {}
  ELSE {[s EXCEPT !.edge = m, !.surface = n] : m \in Keyed(s.edge, e.pose, e.edge), n \in Keyed(s.surface, e.pose, e.surface)}
RECURSIVE Before(_, _)
Before(clouds, k) == IF k = 1 THEN 0 ELSE Before(clouds, k - 1) + Len(clouds[k - 1].pts)
Holds(got, clouds) ==
  /\ Len(got) = Before(clouds, Len(clouds) + 1)
  /\ \A k \in 1..Len(clouds) :
       LET c == clouds[k]  n == TLCEval(Before(clouds, k)) IN
       \A i \in 1..Len(c.pts) :
         LET p == Xyz(c.pts[i])  w == PMul(c.T, p)  tol == FMul("1e-6", FAdd(1, FAdd(Big(p), c.big))) IN
         \A j \in 1..3 : FClose(got[n + i][j], w[j], 0, tol)
Map(s, e) ==
  IF e.points # <<>> /\ Holds(e.points, s[e.kind].clouds)
  THEN {[s EXCEPT !.file = e.points, ![e.kind] = NoMap]} ELSE {}
Served(s, e) ==
  IF s.file # <<>> /\ (Len(e.sent) = 1 /\ Len(e.sent[1]) = Len(s.file) /\ \A i \in 1..Len(s.file) : Xyz(e.sent[1][i]) = Xyz(s.file[i]))
  THEN {[s EXCEPT !.file = <<>>]} ELSE {}
(* a start of the drive: the filter is told where the vehicle is, roughly; before it, single *)
(* scans are localized and all but one in eight answers are good                          *)
Drive(p, s, e) ==
  IF s.ask = <<>> /\ 8 * s.bad <= p.probes /\ StartOk(Off(e.start, e.truth))
  THEN {[s EXCEPT !.told = <<Off(e.start, e.truth)>>, !.on = TRUE, !.first = <<Off(e.start, e.truth)>>, !.since = 7, !.fed = <<>>]} ELSE {}
Filter(s, e) ==
  LET o == Off(e.msg.pose, e.truth) IN
  IF s.ask = <<>> /\ (Drifted(o, s.told[1]) \/ (s.fed # <<>> /\ Corrected(o, s.mark[1], s.fed[1]))) THEN {[s EXCEPT !.told = <<o>>]} ELSE {}
(* a scan is asked to be localized; on the drive, the filter was corrected since the last *)
Ask(s, e) ==
  LET o == Off(e.from, e.truth) IN
  IF /\ s.ask = <<>> /\ InBasin(o)
     /\ s.on => /\ o = s.told[1]
                /\ IF s.fed = <<>> THEN s.first # <<>> /\ Begun(o, s.first[1]) ELSE Corrected(o, s.mark[1], s.fed[1])
  THEN {[s EXCEPT !.ask = <<e>>, !.mark = <<o>>, !.fed = <<>>, !.first = <<>>, !.asked = @ + 1]} ELSE {}
(* the answer to the scan asked; on the drive seven good ones stand between two others     *)
Answer(s, e) ==
  IF s.ask = <<>> \/ Time(e.msg.header.stamp) # Time(s.ask[1].stamp) THEN {}
  ELSE LET o == Off(e.msg.pose, s.ask[1].truth)  good == Good(o) IN
       IF InBasin(o) /\ (s.on /\ ~good => s.since >= 7)
       THEN {[s EXCEPT !.ask = <<>>, !.fed = IF s.on THEN <<o>> ELSE <<>>, !.since = IF good THEN @ + 1 ELSE 0, !.bad = IF good THEN @ ELSE @ + 1]} ELSE {}
DSt(p, s, e) ==
  CASE e.ev = "Scan" -> Scan(s, e)
    [] e.ev = "Map" -> Map(s, e)
    [] e.ev = "Served" -> Served(s, e)
    [] e.ev = "Drive" -> Drive(p, s, e)
    [] e.ev = "Filter" -> Filter(s, e)
    [] e.ev = "Ask" -> Ask(s, e)
    [] e.ev = "Answer" -> Answer(s, e)
    [] e.ev = "Stop" -> IF s.on /\ s.ask = <<>> /\ s.asked = p.asks THEN {s} ELSE {}
    [] OTHER -> {}
DStart(p) == Start0
DWhy(p, s, e) ==
  CASE e.ev = "Scan" -> <<"scan", Len(e.edge), Len(e.surface)>>
    [] e.ev = "Map" -> <<"map", e.kind, Len(e.points), "expected", Len(s[e.kind].clouds), "clouds">>
    [] e.ev = "Served" -> <<"served", Len(e.sent), "expected", Len(s.file)>>
    [] e.ev = "Drive" -> <<"not good", s.bad, "unanswered", s.ask>>
    [] e.ev = "Filter" -> <<"filter off by", Off(e.msg.pose, e.truth), "before", s.told, "at the last scan", s.mark, "fused", s.fed>>
    [] e.ev = "Ask" -> <<"scan from", Off(e.from, e.truth), "before", s.mark, "unanswered", s.ask>>
    [] e.ev = "Answer" -> IF s.ask = <<>> THEN <<"unasked answer">> ELSE <<"answer off by", Off(e.msg.pose, s.ask[1].truth), "from", s.mark, "since the last bad one", s.since, e.msg.header>>
    [] e.ev = "Stop" -> <<"stop", s.asked, s.ask>>
    [] OTHER -> <<e.ev>>
T == INSTANCE TraceLib WITH St <- DSt, Start <- DStart, Why <- DWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
