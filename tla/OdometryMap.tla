------------------------------- MODULE OdometryMap ------------------------------
(* Odometry against a window of recent scans: scans are kept as sequences of points    *)
(* already placed in the map.                                                         *)
EXTENDS Rotations
Placed(T, pts) == [i \in 1..Len(pts) |-> PMul(T, pts[i])]
Window(scans, n) == LET m == IF n < Len(scans) THEN n ELSE Len(scans) IN SubSeq(scans, Len(scans) - m + 1, Len(scans))
RECURSIVE Joined(_)
Joined(scans) == IF scans = <<>> THEN <<>> ELSE Joined(SubSeq(scans, 1, Len(scans) - 1)) \o scans[Len(scans)]
IdPose == <<<<"1.0", "0.0", "0.0", "0.0">>, <<"0.0", "1.0", "0.0", "0.0">>, <<"0.0", "0.0", "1.0", "0.0">>>>
(* the pose of the next scan, given what registration answers                          *)
NextPose(s, answer) == IF s.scans = <<>> THEN s.pose ELSE answer
Fresh == [pose |-> IdPose, scans |-> <<>>]
After(s, pts, answer) == LET p == NextPose(s, answer) IN [pose |-> p, scans |-> Append(s.scans, Placed(p, pts))]
================================================================================
