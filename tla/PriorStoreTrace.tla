----------------------------- MODULE PriorStoreTrace ----------------------------
EXTENDS PriorStore, TLC, TraceFile
VARIABLES sc, l, st
Sized(s, e) == IF Cardinality(s) = e.size THEN {s} ELSE {}
PSt(p, s, e) ==
  CASE e.ev = "Insert" -> Sized(Inserted(s, e.t, e.v), e)
    [] e.ev = "Clean" -> Sized(Cleaned(s, e.t), e)
    [] e.ev = "Closest" ->
         IF s = {} THEN Sized(s, e)
         ELSE LET x == Closest(s, e.t) IN IF FEq(x.t, e.got.t) /\ x.v = e.got.v THEN Sized(s, e) ELSE {}
    [] OTHER -> {}
PStart(p) == {}
PWhy(p, s, e) == <<e, s>>
T == INSTANCE TraceLib WITH St <- PSt, Start <- PStart, Why <- PWhy
Spec == T!TInit /\ [][T!TNext]_<<sc, l, st>>
================================================================================
