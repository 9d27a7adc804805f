------------------------------ MODULE PriorStoreMC ------------------------------
(* Every history of a store over a few stamps.                                       *)
EXTENDS PriorStore, TLC, Json
CONSTANTS Stamps, Values, MaxOps, Gen
VARIABLES store, hist, got, last, n
vars == <<store, hist, got, last, n>>
Init == store = {} /\ hist = <<>> /\ got = {} /\ last = [k |-> "none", t |-> 0, v |-> 0] /\ n = 0
Keep(op) == hist' = IF Gen THEN Append(hist, op) ELSE hist
Ins == \E t \in Stamps, v \in Values :
  LET op == [k |-> "Insert", t |-> t, v |-> v] IN store' = Inserted(store, t, v) /\ got' = {} /\ last' = op /\ Keep(op)
Ask == \E t \in Stamps :
  LET op == [k |-> "Closest", t |-> t, v |-> 0] IN
  store # {} /\ UNCHANGED store /\ got' = {Closest(store, t)} /\ last' = op /\ Keep(op)
Cln == \E t \in Stamps :
  LET op == [k |-> "Clean", t |-> t, v |-> 0] IN store' = Cleaned(store, t) /\ got' = {} /\ last' = op /\ Keep(op)
Next == n < MaxOps /\ n' = n + 1 /\ (Ins \/ Ask \/ Cln)
  /\ (Gen /\ n + 1 = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
OnePerStamp == \A x, y \in store : FEq(x.t, y.t) => x = y
ClosestIsClosest == \A x \in got : x \in store /\ \A y \in store : FLe(Distance(x, last.t), Distance(y, last.t))
CleanKeepsOld == [][last'.k = "Clean" => \A x \in store : (x \in store') = FLe(x.t, last'.t)]_vars
InsertIsFound == [][last'.k = "Insert" => Closest(store', last'.t).v = last'.v]_vars
================================================================================
