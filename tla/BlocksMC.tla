-------------------------------- MODULE BlocksMC --------------------------------
(* Every line length, padding and number of blocks up to the bounds; the line grows  *)
(* point by point.                                                                  *)
EXTENDS Blocks, TLC, Json
CONSTANTS MaxSize, MaxPad, MaxBlocks, Gen
VARIABLES size, pad, n
Init == size = 0 /\ pad \in 0..MaxPad /\ n \in 1..MaxBlocks
Next == size < MaxSize /\ size' = size + 1 /\ UNCHANGED <<pad, n>>
Spec == Init /\ [][Next]_<<size, pad, n>>
PartitionOk == ~Rejected(pad, size - pad, n) => Partition(pad, size - pad, n, Cut(pad, size - pad, n))
RejectedOk == Rejected(pad, size - pad, n) =>
  \/ size - pad <= pad \/ \E j \in 1..n : Boundary(pad, size - pad, n, j) <= Boundary(pad, size - pad, n, j - 1)
================================================================================
