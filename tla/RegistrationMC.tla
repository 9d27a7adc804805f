----------------------------- MODULE RegistrationMC -----------------------------
(* The control skeleton of Registration over abstract levels of error and spread and   *)
(* kinds of step: every answer sequence of the problem.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Levels, MaxIter, Gen
VARIABLES ph, ok, k, max, err, spread, hist, moved
vars == <<ph, ok, k, max, err, spread, hist, moved>>
Kinds == {"small", "big", "none"}      \* converging step, larger step, degenerate
Init == ph = "ask" /\ ok = FALSE /\ k = 0 /\ max \in 0..MaxIter /\ err = -1 /\ spread = -1 /\ hist = <<>> /\ moved = <<>>
Give(x) == hist' = Append(hist, x)
Over == ph = "ask" /\ k >= max /\ ph' = "done" /\ ok' = FALSE /\ UNCHANGED <<k, max, err, spread, hist, moved>>
Empty == ph = "ask" /\ k < max /\ ph' = "done" /\ ok' = FALSE /\ Give([e |-> 0, s |-> 0, kind |-> "empty"])
  /\ UNCHANGED <<k, max, err, spread, moved>>
Answer == \E e \in Levels, s \in Levels, c \in Kinds :
  /\ ph = "ask" /\ k < max /\ s < e
  /\ Give([e |-> e, s |-> s, kind |-> c])
  /\ IF err >= 0 /\ (e > err \/ s > spread)
     THEN ph' = "done" /\ ok' = TRUE /\ UNCHANGED <<k, max, err, spread, moved>>
     ELSE /\ err' = e /\ spread' = s /\ k' = k + 1 /\ max' = max /\ moved' = Append(moved, c)
          /\ IF c \in {"small", "none"} THEN ph' = "done" /\ ok' = TRUE
             ELSE ph' = "ask" /\ ok' = FALSE
Stop == ph = "done" /\ ph' = "end" /\ UNCHANGED <<ok, k, max, err, spread, hist, moved>>
  /\ (Gen => PrintT(<<"BEHAVIOUR", ToJson([max |-> max, hist |-> hist])>>))
Next == Over \/ Empty \/ Answer \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMost == Len(hist) <= max /\ k <= max
NeverWorse == \A i \in 1..(Len(moved) - 1) : hist[i + 1].e <= hist[i].e /\ hist[i + 1].s <= hist[i].s
Verdict == ph = "done" =>
  /\ ok = FALSE => (k >= max \/ hist[Len(hist)].kind = "empty")
  /\ ok = TRUE => (moved # <<>> /\ (moved[Len(moved)] \in {"small", "none"} \/ Len(hist) = Len(moved) + 1))
Terminates == <>(ph = "end")
================================================================================
