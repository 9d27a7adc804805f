------------------------------- MODULE PriorStore -------------------------------
(* Objects kept by time stamp.  A store is a set of records [t |-> stamp, v |-> id]  *)
(* with one record per stamp.                                                       *)
EXTENDS Reals64, FiniteSets
Inserted(store, t, v) == {x \in store : ~FEq(x.t, t)} \cup {[t |-> FOf(t), v |-> v]}
Cleaned(store, t) == {x \in store : FLe(x.t, t)}
Distance(x, t) == FAbs(FSub(x.t, t))
(* closest in time; of two equally close ones the later                              *)
Closest(store, t) ==
  CHOOSE x \in store : \A y \in store :
    \/ FLt(Distance(x, t), Distance(y, t))
    \/ FEq(Distance(x, t), Distance(y, t)) /\ FGe(x.t, y.t)
================================================================================
