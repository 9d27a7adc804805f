------------------------------ MODULE MapServingMC -------------------------------
(* Loader, subscribers that come at any time, and the frame generator, connected by a   *)
(* topic that keeps the last message for late subscribers.                               *)
EXTENDS MapServing, TLC
CONSTANTS Names, Xs, MaxPoints, MaxOps
VARIABLES content, state, topic, seen, frames, n
vars == <<content, state, topic, seen, frames, n>>
Cols == <<1, 1, 1>>
Init == content = <<>> /\ state = "down" /\ topic = <<>> /\ seen = {} /\ frames = {} /\ n = 0
Fill == state = "down" /\ Len(content) < MaxPoints /\ \E x \in Xs : content' = Append(content, <<x>>) /\ UNCHANGED <<state, topic, seen, frames>>
Run == state = "down" /\ \E f \in Names : LET r == Loaded(f, content) IN
  state' = (IF r.refused THEN "refused" ELSE "up") /\ topic' = r.sent
  /\ frames' = (IF r.sent # <<>> /\ content # <<>> THEN {Centroid(content, Cols)} ELSE {})
  /\ UNCHANGED <<content, seen>>
Join == state = "up" /\ \E s \in 1..2 : seen' = seen \cup {<<s, topic[1]>>} /\ UNCHANGED <<content, state, topic, frames>>
Next == n < MaxOps /\ n' = n + 1 /\ (Fill \/ Run \/ Join)
Spec == Init /\ [][Next]_vars
EveryoneSeesAll == \A x \in seen : x[2] = content
Refuses == state = "refused" => topic = <<>> /\ seen = {}
Inside == \A f \in frames : \A k \in 1..3 :
  /\ \E i \in 1..Len(content) : FLe(FSub(f[k], "1e-9"), content[i][1])
  /\ \E i \in 1..Len(content) : FLe(content[i][1], FAdd(f[k], "1e-9"))
(* the mean is where the deviations cancel                                               *)
Balanced == \A f \in frames : FClose(FSum([i \in 1..Len(content) |-> FSub(content[i][1], f[1])]), 0, 0, "1e-9")
================================================================================
