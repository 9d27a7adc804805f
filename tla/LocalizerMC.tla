------------------------------- MODULE LocalizerMC -------------------------------
(* Every interleaving of edge scans, surface scans and priors.  Messages are numbered  *)
(* in the order of arrival.                                                            *)
EXTENDS Localizer, TLC, Json
CONSTANTS ScanStamps, PriorStamps, Horizon, MaxQueue, MaxOps, Kinds, Gen
VARIABLES s, hist, n
vars == <<s, hist, n>>
Init == s = Fresh /\ hist = <<>> /\ n = 0
Do(op, next) == s' = next /\ hist' = Append(hist, [op EXCEPT !.job = next.job])
Op(k, t) == [k |-> k, t |-> t, id |-> n + 1, job |-> <<>>]
Prior == \E t \in PriorStamps, k \in Kinds : Do(Op(k, t), [NewPrior(s, t, n + 1) EXCEPT !.job = <<>>])
Edge == \E t \in ScanStamps : Do(Op("edge", t), NewScan(s, "a", t, n + 1, MaxQueue, Horizon))
Surface == \E t \in ScanStamps : Do(Op("surface", t), NewScan(s, "b", t, n + 1, MaxQueue, Horizon))
Next == n < MaxOps /\ n' = n + 1 /\ (Prior \/ Edge \/ Surface)
  /\ (Gen /\ n + 1 = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

Jobs == {i \in 1..Len(hist) : hist[i].job # <<>>}
J(i) == hist[i].job[1]
Scans(k) == {i \in 1..Len(hist) : hist[i].k = k}
Priors == Scans("pose") \cup Scans("odom")
(* a result belongs to two scans of its stamp, of which the later one just arrived        *)
EqualStamps == \A i \in Jobs : J(i).edge \in Scans("edge") /\ J(i).surface \in Scans("surface")
   /\ FEq(hist[J(i).edge].t, hist[J(i).surface].t) /\ FEq(hist[J(i).edge].t, J(i).t) /\ i \in {J(i).edge, J(i).surface} /\ J(i).edge <= i /\ J(i).surface <= i
OncePerScan == \A i, j \in Jobs : i # j => J(i).edge # J(j).edge /\ J(i).surface # J(j).surface
(* no prior, no result; and the prior is the closest of those still usable: not replaced, and not  *)
(* later than any earlier result by more than the horizon when that result was made               *)
Usable(p, i) ==
  /\ p < i /\ p \in Priors
  /\ \A r \in Priors : p < r /\ r < i => hist[r].t # hist[p].t
  /\ \A j \in Jobs : p < j /\ j < i => hist[p].t <= hist[j].t + Horizon
NearestPrior == \A i \in Jobs : Usable(J(i).prior, i) /\
   \A r \in Priors : Usable(r, i) => FLe(FAbs(FSub(hist[J(i).prior].t, hist[i].t)), FAbs(FSub(hist[r].t, hist[i].t)))
(* a scan whose counterpart is still around gives a result                                *)
Counterpart(i, j) == j < i /\ hist[j].t = hist[i].t /\ {hist[i].k, hist[j].k} = {"edge", "surface"}
Joined(i, queue) == \E j \in 1..Len(hist) : Counterpart(i, j)
   /\ Cardinality({hist[k].t : k \in {k \in 1..i : hist[k].k \in {"edge", "surface"}}}) <= queue
   /\ \A k \in j..(i - 1) : hist[k].k \in {"edge", "surface"} =>
        ~\E m \in 1..(k - 1) : Counterpart(k, m) /\ hist[k].t >= hist[i].t
Complete == \A i \in 1..Len(hist) : Joined(i, MaxQueue) /\ (\E p \in Priors : Usable(p, i)) => i \in Jobs
Bounded == Cardinality(s.pending) <= MaxQueue
================================================================================
