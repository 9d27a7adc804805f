--------------------------------- MODULE Blocks ---------------------------------
(* Cutting start .. end (end exclusive) into n blocks.                             *)
EXTENDS Integers, Sequences
Boundary(start, end, n, j) == start + ((end - start) * j) \div n
Rejected(start, end, n) == end - start < n
(* b: sequence of <<begin, end>>                                                   *)
Partition(start, end, n, b) ==
  /\ Len(b) = n
  /\ b[1][1] = start /\ b[n][2] = end
  /\ \A j \in 1..n : b[j][1] < b[j][2]
  /\ \A j \in 1..(n - 1) : b[j][2] = b[j + 1][1]
  /\ \A i, j \in 1..n : b[i][2] - b[i][1] <= b[j][2] - b[j][1] + 1
Cut(start, end, n) == [j \in 1..n |-> <<Boundary(start, end, n, j - 1), Boundary(start, end, n, j)>>]
================================================================================
