-------------------------------- MODULE TraceLib -------------------------------
(* Judging recorded behaviours of the code: every scenario of the trace file is  *)
(* a behaviour of its own; St(p, s, e) is the set of states the specification    *)
(* allows after observing event e in state s.                                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Traces, St(_, _, _), Start(_), Why(_, _, _)
VARIABLES sc, l, st

TInit == /\ sc \in 1..Len(Traces)
         /\ l = 1
         /\ st = Start(Traces[sc].params)
Event == Traces[sc].events[l]
TNext ==
  /\ l <= Len(Traces[sc].events)
  /\ LET next == St(Traces[sc].params, st, Event) IN
     IF next = {}
     THEN /\ PrintT(<<"REJECT", Traces[sc].id, l, Why(Traces[sc].params, st, Event)>>)
          /\ l' = 1000000 /\ st' = "rejected"
     ELSE /\ \E n \in next : st' = n
          /\ l' = l + 1
          /\ (l = Len(Traces[sc].events)) => PrintT(<<"ACCEPT", Traces[sc].id, l>>)
  /\ UNCHANGED sc
================================================================================
