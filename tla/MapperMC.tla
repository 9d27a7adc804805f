-------------------------------- MODULE MapperMC --------------------------------
(* Every sequence of clouds of a few sizes at a few poses, already paired.             *)
EXTENDS Mapper, Json
CONSTANTS Sizes, Places, MaxOps, Gen
VARIABLES m, hist, n
vars == <<m, hist, n>>
At(x) == [q |-> <<"1", "0", "0", "0">>, p |-> <<x, "0", "0">>]
Turned(z) == [q |-> <<FCos(z), "0", "0", FSin(z)>>, p |-> <<"0.25", "0", "0">>]
Poses == <<At("0"), At("0.5"), At("1"), At("1.5"), At("2"), Turned("0.06"), Turned("0.12"), Turned("3.0"),
           [q |-> <<FCos("0.06"), FSin("0.06"), "0", "0">>, p |-> <<"0.5", "0.5", "0.5">>], At("1.0000001")>>
Init == m = Blank /\ hist = <<>> /\ n = 0
Add == \E k \in Sizes, x \in Places :
  /\ \E r \in Added(m, Poses[x], [i \in 1..k |-> <<n + 1, i>>]) : m' = r
  /\ hist' = Append(hist, [size |-> k, place |-> x, kept |-> m' # m])
Next == n < MaxOps /\ n' = n + 1 /\ Add /\ (Gen /\ n + 1 = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

Keys == {i \in 1..Len(hist) : hist[i].kept}
Far(a, b) == LET d == VNorm(VSub(Poses[b].p, Poses[a].p)) IN FGe(d, 1) \/ FGe(HalfSine(Poses[a], Poses[b]), "0.1")
Before(i) == {j \in Keys : j < i}
LastBefore(i) == CHOOSE j \in Before(i) : \A k \in Before(i) : k <= j
KeysAreFar == \A i \in Keys : hist[i].size > 0 /\ (Before(i) = {} \/ Far(hist[LastBefore(i)].place, hist[i].place))
SkippedAreNear == \A i \in (1..Len(hist)) \ Keys : hist[i].size = 0 \/ (Before(i) # {} /\ ~Far(hist[LastBefore(i)].place, hist[i].place))
RECURSIVE Expected(_)
Expected(i) == IF i = 0 THEN <<>> ELSE Expected(i - 1) \o (IF i \in Keys THEN [k \in 1..hist[i].size |-> [T |-> Poses[hist[i].place], c |-> <<i, k>>]] ELSE <<>>)
MapIsKeys == m.map = Expected(Len(hist))
OnlyGrows == [][Len(m'.map) >= Len(m.map) /\ SubSeq(m'.map, 1, Len(m.map)) = m.map]_vars
================================================================================
