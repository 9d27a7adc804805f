------------------------------- MODULE MapServing --------------------------------
(* The map loader (one cloud at the start) and the generator of the viewer frame.       *)
EXTENDS Reals64, FiniteSets
Mean(points, col) == FDiv(FSum([i \in 1..Len(points) |-> points[i][col]]), Len(points))
Centroid(points, cols) == [k \in 1..3 |-> Mean(points, cols[k])]
Largest(points, col) == FMaxOf([i \in 1..Len(points) |-> FAbs(points[i][col])])
(* loader: the state after it was started with a file name                               *)
Loaded(name, content) == IF name = "" THEN [refused |-> TRUE, sent |-> <<>>] ELSE [refused |-> FALSE, sent |-> <<content>>]
================================================================================
