--------------------------------- MODULE ScanGen ---------------------------------
(* Histories of scans for the extraction node: what the rings of each scan look like. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxScans, MaxRings, MaxSegs, Kinds, Orders, Layouts
VARIABLES scans, rings, segs

Init == scans = <<>> /\ rings = <<>> /\ segs = <<>>
AddSegment == /\ Len(segs) < MaxSegs /\ Len(scans) < MaxScans
              /\ \E k \in Kinds : segs' = Append(segs, k)
              /\ UNCHANGED <<scans, rings>>
CloseRing == /\ Len(segs) > 0 /\ Len(rings) < MaxRings
             /\ rings' = Append(rings, segs) /\ segs' = <<>> /\ UNCHANGED scans
CloseScan == /\ segs = <<>> /\ Len(scans) < MaxScans
             /\ \E o \in Orders, f \in Layouts :
                  scans' = Append(scans, [rings |-> rings, order |-> o, layout |-> f])
             /\ rings' = <<>> /\ UNCHANGED segs
Finish == /\ Len(scans) = MaxScans
          /\ PrintT(<<"BEHAVIOUR", ToJson(scans)>>) /\ FALSE /\ UNCHANGED <<scans, rings, segs>>
Next == IF Len(scans) = MaxScans THEN Finish
        ELSE IF Len(segs) = MaxSegs THEN CloseRing
        ELSE IF Len(rings) = MaxRings THEN CloseScan
        ELSE AddSegment \/ CloseRing \/ CloseScan
Spec == Init /\ [][Next]_<<scans, rings, segs>>
================================================================================
