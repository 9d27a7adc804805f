------------------------------- MODULE NearestMC --------------------------------
(* k-nearest search in a split tree with leaves of bounded size against the definition *)
(* of the nearest points, for every small map (duplicates included), query and k.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Side, MaxPoints, MaxLeaf
VARIABLES map, leaf, query, found
vars == <<map, leaf, query, found>>
Pts == (0..Side) \X (0..Side)
D(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Sorted(s) == SortSeq(s, LAMBDA a, b : a[1] < b[1])
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* definition: the k smallest distances                                                *)
Definition(m, p, k) == [i \in 1..k |-> Sorted([j \in 1..Len(m) |-> <<D(m[j], p), j>>])[i][1]]
(* the tree: split the widest extent at its middle; equal points share a leaf           *)
Extent(m, d) == Max({m[i][d] : i \in 1..Len(m)}) - Min({m[i][d] : i \in 1..Len(m)})
RECURSIVE Tree(_, _)
Tree(m, size) ==
  LET d == IF Extent(m, 1) >= Extent(m, 2) THEN 1 ELSE 2 IN
  IF Len(m) <= size \/ Extent(m, d) = 0 THEN [leaf |-> TRUE, pts |-> m]
  ELSE LET lo == Min({m[i][d] : i \in 1..Len(m)})
           cut == lo + Extent(m, d) \div 2
           L == SelectSeq(m, LAMBDA p : p[d] <= cut)
           R == SelectSeq(m, LAMBDA p : p[d] > cut)
       IN [leaf |-> FALSE, dim |-> d, low |-> Max({L[i][d] : i \in 1..Len(L)}), high |-> Min({R[i][d] : i \in 1..Len(R)}),
           left |-> Tree(L, size), right |-> Tree(R, size)]
Best(s, k) == LET t == SortSeq(s, LAMBDA a, b : a < b) IN SubSeq(t, 1, IF Len(t) < k THEN Len(t) ELSE k)
RECURSIVE Search(_, _, _, _)
Search(t, p, k, best) ==
  IF t.leaf THEN Best(best \o [i \in 1..Len(t.pts) |-> D(t.pts[i], p)], k)
  ELSE LET x == p[t.dim]
           near == IF 2 * x <= t.low + t.high THEN t.left ELSE t.right
           far == IF 2 * x <= t.low + t.high THEN t.right ELSE t.left
           gap == IF 2 * x <= t.low + t.high THEN t.high - x ELSE x - t.low
           b == Search(near, p, k, best)
       IN IF Len(b) = k /\ gap * gap >= b[k] THEN b ELSE Search(far, p, k, b)
Init == map = <<>> /\ leaf \in 1..MaxLeaf /\ query = <<>> /\ found = <<>>
Grow == query = <<>> /\ Len(map) < MaxPoints /\ \E p \in Pts :
  (map # <<>> => LET q == map[Len(map)] IN p[1] * (Side + 1) + p[2] >= q[1] * (Side + 1) + q[2])
  /\ map' = Append(map, p) /\ UNCHANGED <<leaf, query, found>>
Ask == query = <<>> /\ map # <<>> /\ \E x \in (-1)..(Side + 2), y \in (-1)..(Side + 2), k \in 1..Len(map) :
  query' = <<<<x, y>>, k>> /\ found' = Search(Tree(map, leaf), <<x, y>>, k, <<>>) /\ UNCHANGED <<map, leaf>>
Next == Grow \/ Ask
Spec == Init /\ [][Next]_vars
Exact == query # <<>> => found = Definition(map, query[1], query[2])
Increasing == \A i \in 1..(Len(found) - 1) : found[i] <= found[i + 1]
================================================================================
