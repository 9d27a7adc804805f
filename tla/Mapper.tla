--------------------------------- MODULE Mapper ---------------------------------
(* The map made of key clouds.  Poses are [q |-> <<w, x, y, z>>, p |-> <<x, y, z>>].  *)
(* A map entry is [T |-> pose, c |-> point]; key is <<>> or <<pose of the last key>>.  *)
EXTENDS Rotations, Matching, TLC
Unit(q) == VMul(q, FDiv(1, VNorm(q)))
Trans(x) == PoseOf(Unit(x.q), x.p)
Apart(a, b) == VNorm(VSub(b.p, a.p))
(* sine of half the angle between two rotations                                        *)
HalfSine(a, b) == FSqrt(FMax(0, FDiv(FSub(3, Trace3(MMul(MT(QMatrix(Unit(a.q))), QMatrix(Unit(b.q))))), 4)))
(* no rotation, a move along one axis, short binary numbers: nothing rounds             *)
Plain(x) == x.q = <<"1", "0", "0", "0">> /\ \A i \in 1..3 : FEq(FMul(8, x.p[i]), FTrunc(FMul(8, x.p[i])))
NoRounding(a, b) == Plain(a) /\ Plain(b) /\ \E i \in 1..3 : \A j \in 1..3 \ {i} : FEq(a.p[j], b.p[j])
Below(x, limit, exact) == IF ~exact /\ FClose(x, limit, "1e-9", "1e-12") THEN {TRUE, FALSE} ELSE {FLt(x, limit)}
(* is b close to a: both moved and turned less than the limits                          *)
Near(a, b, metres, turn) == {x /\ y : x \in Below(Apart(a, b), metres, NoRounding(a, b)), y \in Below(HalfSine(a, b), turn, FALSE)}
Metres == "1.0"
Turn == "0.1"
Blank == [map |-> <<>>, key |-> <<>>]
Put(m, x, cloud) == [map |-> m.map \o [i \in 1..Len(cloud) |-> [T |-> x, c |-> cloud[i]]], key |-> <<x>>]
(* the possible maps after a cloud and its pose                                         *)
Added(m, x, cloud) ==
  IF Len(cloud) = 0 THEN {m}
  ELSE IF m.map = <<>> THEN {Put(m, x, cloud)}
  ELSE {IF near THEN m ELSE Put(m, x, cloud) : near \in Near(m.key[1], x, Metres, Turn)}
================================================================================
