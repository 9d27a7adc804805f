--------------------------------- MODULE Polar ----------------------------------
(* The angular order of points <<x, y>>: polar angle in (-pi, pi], the origin     *)
(* counting as angle 0.  Coordinates are single precision, so the cross product   *)
(* in double precision has the exact sign.                                        *)
EXTENDS Reals64

AtOrigin(a) == FEq(a[1], 0) /\ FEq(a[2], 0)
(* -1: below the axis, 0: angle 0, 1: above the axis, 2: angle pi                  *)
Sector(a) == IF FLt(a[2], 0) THEN -1
             ELSE IF FLt(0, a[2]) THEN 1
             ELSE IF FLt(a[1], 0) THEN 2 ELSE 0
Cross(a, b) == FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))
PolarLess(a, b) ==
  LET s == Sector(a)  t == Sector(b) IN
  IF s # t THEN s < t
  ELSE IF s \in {0, 2} THEN FALSE
  ELSE FLt(0, Cross(a, b))
PolarTie(a, b) == ~PolarLess(a, b) /\ ~PolarLess(b, a)
Angle(a) == IF AtOrigin(a) THEN "0.0"
            ELSE IF Sector(a) = 2 THEN FAcos("-1.0")
            ELSE FAtan2(a[2], a[1])
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~PolarLess(s[i + 1], s[i])
IsPermutation(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 1..n
================================================================================
