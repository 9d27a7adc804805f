--------------------------------- MODULE OdomMC ---------------------------------
(* The window of recent scans over every sequence of scan sizes and registration        *)
(* answers on a line: a scan is a set of offsets, a pose an offset.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxScans, MaxWindow, Gen
VARIABLES window, poses, sizes, asked
vars == <<window, poses, sizes, asked>>
Init == window \in 1..MaxWindow /\ poses = <<>> /\ sizes = <<>> /\ asked = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Next == Len(poses) < MaxScans /\ \E n \in 0..2, a \in 0..2 :
  /\ poses' = Append(poses, IF poses = <<>> THEN 0 ELSE a)
  /\ sizes' = Append(sizes, n)
  /\ asked' = Append(asked, IF poses = <<>> THEN [from |-> -1, to |-> -1, start |-> -1]
                            ELSE [from |-> Len(poses) - Min(window, Len(poses)) + 1, to |-> Len(poses), start |-> poses[Len(poses)]])
  /\ UNCHANGED window
  /\ (Gen /\ Len(poses) + 1 = MaxScans => PrintT(<<"BEHAVIOUR", ToJson([window |-> window, poses |-> poses', sizes |-> sizes'])>>))
Spec == Init /\ [][Next]_vars
FirstAtIdentity == poses # <<>> => poses[1] = 0
WindowExact == \A i \in 2..Len(asked) :
  /\ asked[i].to = i - 1
  /\ asked[i].to - asked[i].from + 1 = Min(window, i - 1)
  /\ asked[i].start = poses[i - 1]
================================================================================
