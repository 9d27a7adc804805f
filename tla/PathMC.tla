--------------------------------- MODULE PathMC ---------------------------------
EXTENDS PathHistory, TLC, Json
CONSTANTS Headers, Poses, MaxOps, Gen
VARIABLES path, sent, n
vars == <<path, sent, n>>
Init == path = NoPath /\ sent = <<>> /\ n = 0
Get == \E h \in Headers, p \in Poses : path' = Received(path, h, p) /\ sent' = Append(sent, [h |-> h, p |-> p])
Next == n < MaxOps /\ n' = n + 1 /\ Get /\ (Gen /\ n + 1 = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(sent')>>))
Spec == Init /\ [][Next]_vars
AllPoses == Len(path.poses) = n /\ \A i \in 1..n : path.poses[i] = [header |-> sent[i].h, pose |-> sent[i].p]
LastHeader == n > 0 => path.header = sent[n].h
KeepsOld == [][\A i \in 1..n : path'.poses[i] = path.poses[i]]_vars
================================================================================
