-------------------------------- MODULE Localizer --------------------------------
(* The localization node: priors by stamp, scans joined by stamp, one result per pair. *)
EXTENDS PriorStore, Matching
Queue == 10
(* stamps and horizon in the unit of the stamps                                        *)
NewPrior(s, t, v) == [s EXCEPT !.store = Inserted(@, t, v)]
NewScan(s, side, t, m, queue, horizon) ==
  LET r == Arrived(s.pending, side, t, m, queue)  use == r.pair # <<>> /\ s.store # {} IN
  [pending |-> r.pending,
   store |-> IF use THEN Cleaned(s.store, FAdd(t, horizon)) ELSE s.store,
   job |-> IF use THEN <<[edge |-> r.pair[1], surface |-> r.pair[2], prior |-> Closest(s.store, t).v, t |-> FOf(t)]>> ELSE <<>>]
Fresh == [pending |-> {}, store |-> {}, job |-> <<>>]
================================================================================
