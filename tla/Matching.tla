-------------------------------- MODULE Matching --------------------------------
(* Two message streams joined by equal stamps.  pending: a set of records            *)
(* [t |-> stamp, a |-> <<>> or <<message>>, b |-> likewise], one per stamp.          *)
EXTENDS Reals64, FiniteSets
Slot(pending, t) == IF \E x \in pending : FEq(x.t, t) THEN CHOOSE x \in pending : FEq(x.t, t) ELSE [t |-> FOf(t), a |-> <<>>, b |-> <<>>]
RECURSIVE Trim(_, _)
Trim(pending, queue) ==
  IF Cardinality(pending) <= queue THEN pending
  ELSE Trim(pending \ {CHOOSE x \in pending : \A y \in pending : FLe(x.t, y.t)}, queue)
(* a message arrives on side "a" or "b": what stays pending and the pair it completes   *)
Arrived(pending, side, t, m, queue) ==
  LET old == Slot(pending, t)
      new == IF side = "a" THEN [old EXCEPT !.a = <<m>>] ELSE [old EXCEPT !.b = <<m>>]
      all == (pending \ {old}) \cup {new}
      full == new.a # <<>> /\ new.b # <<>>
      left == IF full THEN {x \in all : FLt(t, x.t)} ELSE all
  IN [pending |-> Trim(left, queue), pair |-> IF full THEN <<new.a[1], new.b[1]>> ELSE <<>>]
================================================================================
