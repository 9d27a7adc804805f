-------------------------------- MODULE ScanLine --------------------------------
(* Feature selection on one scan line.  A line L is a record                       *)
(*   [n |-> number of points, p |-> padding, nb |-> number of blocks,               *)
(*    adj |-> adj[i] iff points i and i+1 are angularly connected, ...]            *)
(* The numeric facts about its points come in through the constant operators.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Higher(_, _, _),    \* the curvature of i is larger than that of j
          EdgeQ(_, _),        \* the curvature of i reaches the edge threshold
          SurfQ(_, _),        \* the curvature of i is within the surface threshold
          Jump(_, _, _),      \* j is farther than i by more than the distance threshold
          OutQ(_, _),         \* the range of i is outside the limits
          ParQ(_, _),         \* the range of i differs from both neighbours by the ratio
          Cap                 \* largest number of alternatives followed

(* ---- blocks: the inner part padding .. n - padding, cut into nb pieces           *)
Inner(L) == L.n - 2 * L.p
Boundary(L, j) == L.p + (Inner(L) * j) \div L.nb          \* 0-based, exclusive end
Block(L, j) == (Boundary(L, j - 1) + 1)..Boundary(L, j)    \* j in 1..nb, 1-based points
(* a line is processed when every block holds at least two points                   *)
Processable(L) == Inner(L) >= 2 * L.nb

(* ---- reach: connected and not farther than the padding                           *)
Reach(L, B, i) ==
  {j \in B : /\ j <= i + L.p /\ i <= j + L.p
             /\ \A k \in (IF i < j THEN i ELSE j)..((IF i < j THEN j ELSE i) - 1) : L.adj[k]}

(* ---- greedy selection: visit in order of curvature, keep unless already touched   *)
(* lab: labels of the block's points;  D default, E edge, e its neighbour,           *)
(* S surface, s its neighbour                                                        *)
First(L, todo, up, i) == ~\E j \in todo : IF up THEN Higher(L, i, j) ELSE Higher(L, j, i)
Take(L, B, lab, i, mark, near) ==
  LET r == Reach(L, B, i) IN [j \in B |-> IF j = i THEN mark ELSE IF j \in r THEN near ELSE lab[j]]
(* successors of a selection state [lab, todo]; ties that cannot influence each     *)
(* other are taken in one order only                                                *)
Visit(L, B, st, up, mark, near) ==
  LET firsts == {i \in st.todo : First(L, st.todo, up, i)}
      lone == {i \in firsts : ~\E j \in firsts : j # i /\ j <= i + L.p /\ i <= j + L.p}
      pick == IF lone # {} THEN {CHOOSE i \in lone : TRUE} ELSE firsts
  IN {LET lab == Take(L, B, st.lab, i, mark, near)
      IN [lab |-> lab, todo |-> {j \in st.todo \ {i} : lab[j] = "D"}] : i \in pick}
RECURSIVE Greedy(_, _, _, _, _, _)
Greedy(L, B, S, up, mark, near) ==
  IF Cardinality(S) > Cap THEN {}
  ELSE IF \A st \in S : st.todo = {} THEN {st.lab : st \in S}
  ELSE Greedy(L, B, UNION {IF st.todo = {} THEN {st} ELSE Visit(L, B, st, up, mark, near) : st \in S}, up, mark, near)
Edges(L, B, lab) ==
  Greedy(L, B, {[lab |-> lab, todo |-> {i \in B : lab[i] = "D" /\ EdgeQ(L, i)}]}, FALSE, "E", "e")
Surfaces(L, B, lab) ==
  Greedy(L, B, {[lab |-> lab, todo |-> {i \in B : lab[i] = "D" /\ SurfQ(L, i)}]}, TRUE, "S", "s")
(* all labellings of a block; {} when there are too many ties to follow             *)
BlockLabels(L, B) ==
  LET es == Edges(L, B, [i \in B |-> "D"])
      all == {Surfaces(L, B, lab) : lab \in es}
  IN IF es = {} \/ {} \in all THEN {} ELSE UNION all

(* ---- unreliable points, overruling everything before                             *)
Occluded(L) ==
  UNION {{j \in (i + 1)..(i + 1 + L.p) : \A k \in (i + 1)..(j - 1) : L.adj[k]} :
            i \in {i \in 1..(L.n - L.p - 1) : L.adj[i] /\ Jump(L, i, i + 1)}}
  \cup
  UNION {{j \in (i - 1 - L.p)..(i - 1) : \A k \in j..(i - 2) : L.adj[k]} :
            i \in {i \in (L.p + 2)..L.n : L.adj[i - 1] /\ Jump(L, i, i - 1)}}
Final(L, occ, lab, i) ==
  IF i \in 2..(L.n - 1) /\ ParQ(L, i) THEN "P"
  ELSE IF OutQ(L, i) THEN "O"
  ELSE IF i \in occ THEN "X"
  ELSE lab

(* a line's labelling is acceptable iff it is acceptable block by block              *)
BlockOf(L, i) == IF i <= L.p \/ i > L.n - L.p THEN 0
                 ELSE CHOOSE j \in 1..L.nb : i \in Block(L, j)
================================================================================
