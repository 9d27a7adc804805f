------------------------------ MODULE MapperNodeMC ------------------------------
(* The mapping node: clouds and poses joined by stamp in every order of arrival, then  *)
(* stopped.  File: <<>> none, otherwise <<map>>.                                       *)
EXTENDS Mapper, Json
CONSTANTS Sizes, Places, Stamps, MaxQueue, MaxOps, Gen
VARIABLES pending, m, file, stopped, hist, n
vars == <<pending, m, file, stopped, hist, n>>
Poses == <<[q |-> <<"1", "0", "0", "0">>, p |-> <<"0", "0", "0">>], [q |-> <<"1", "0", "0", "0">>, p |-> <<"0.75", "0", "0">>],
           [q |-> <<"1", "0", "0", "0">>, p |-> <<"1", "0", "0">>], [q |-> <<FCos("0.12"), "0", "0", FSin("0.12")>>, p |-> <<"0", "0", "0">>]>>
Init == pending = {} /\ m = Blank /\ file = <<>> /\ stopped = FALSE /\ hist = <<>> /\ n = 0
Use(op, r) ==
  /\ pending' = r.pending
  /\ IF r.pair = <<>> THEN m' = m ELSE \E x \in Added(m, Poses[r.pair[2].place], [i \in 1..r.pair[1].size |-> <<r.pair[1].id, i>>]) : m' = x
  /\ hist' = Append(hist, [op EXCEPT !.pair = IF r.pair = <<>> THEN <<>> ELSE <<r.pair[1].id, r.pair[2].id>>])
  /\ UNCHANGED <<file, stopped>>
Op(k, t, a) == [k |-> k, t |-> t, arg |-> a, pair |-> <<>>]
Cloud == \E t \in Stamps, z \in Sizes : Use(Op("cloud", t, z), Arrived(pending, "a", t, [id |-> n + 1, size |-> z, place |-> 0], MaxQueue))
Pose == \E t \in Stamps, x \in Places : Use(Op("pose", t, x), Arrived(pending, "b", t, [id |-> n + 1, size |-> 0, place |-> x], MaxQueue))
Stop == stopped' = TRUE /\ file' = (IF m.map = <<>> THEN <<>> ELSE <<m.map>>) /\ UNCHANGED <<pending, m, hist>>
Next == ~stopped /\ n' = n + 1 /\ (IF n < MaxOps THEN Cloud \/ Pose \/ (~Gen /\ Stop) ELSE Stop)
  /\ (Gen /\ stopped' => PrintT(<<"BEHAVIOUR", ToJson(hist)>>))
Spec == Init /\ [][Next]_vars

Pairs == {i \in 1..Len(hist) : hist[i].pair # <<>>}
EqualStamps == \A i \in Pairs : LET c == hist[i].pair[1]  p == hist[i].pair[2] IN
  hist[c].k = "cloud" /\ hist[p].k = "pose" /\ hist[c].t = hist[p].t /\ i \in {c, p} /\ c <= i /\ p <= i
OncePerMessage == \A i, j \in Pairs : i # j => hist[i].pair[1] # hist[j].pair[1] /\ hist[i].pair[2] # hist[j].pair[2]
(* points of the map belong to clouds whose pose has the same stamp, whole clouds, in order of pairing *)
FromPairs == \A e \in 1..Len(m.map) : \E i \in Pairs : hist[i].pair[1] = m.map[e].c[1] /\ m.map[e].T = Poses[hist[hist[i].pair[2]].arg]
Whole == \A e \in 1..Len(m.map) : LET c == m.map[e].c IN
  /\ c[2] < hist[c[1]].arg => e < Len(m.map) /\ m.map[e + 1].c = <<c[1], c[2] + 1>>
  /\ c[2] > 1 => e > 1 /\ m.map[e - 1].c = <<c[1], c[2] - 1>>
FirstKept == (\E i \in Pairs : hist[hist[i].pair[1]].arg > 0) => m.map # <<>>
Saved == stopped => (file = <<>> <=> m.map = <<>>) /\ (file # <<>> => file[1] = m.map)
Joinable == \A i \in 1..Len(hist) : \A j \in 1..(i - 1) :
  (hist[j].t = hist[i].t /\ hist[j].k # hist[i].k /\ Cardinality({hist[k].t : k \in 1..i}) <= MaxQueue
   /\ ~\E k \in 1..(i - 1) : hist[k].t >= hist[i].t /\ \E q \in 1..(k - 1) : hist[q].t = hist[k].t /\ hist[q].k # hist[k].k) => i \in Pairs
================================================================================
