------------------------------- MODULE ScanLineMC -------------------------------
(* Every line of a small size over a few ranges and every pattern of angular gaps:   *)
(* the selection procedure against the declarative guarantees.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Pad, NB, Ranges, EdgeThr, SurfThr, DistThr, MinR, MaxR, Ratio, Gen
VARIABLES line, done

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumDiff(_, _, _)
SumDiff(r, i, k) == IF k = 0 THEN 0 ELSE (r[i + k] - r[i]) + (r[i - k] - r[i]) + SumDiff(r, i, k - 1)
Curv(r, i) == IF i <= Pad \/ i > N - Pad THEN 0 ELSE SumDiff(r, i, Pad) * SumDiff(r, i, Pad)
IHigher(L, i, j) == Curv(L.rng, i) > Curv(L.rng, j)
IEdge(L, i) == Curv(L.rng, i) >= EdgeThr
ISurf(L, i) == Curv(L.rng, i) <= SurfThr
IJump(L, i, j) == L.rng[j] > L.rng[i] + DistThr
IOut(L, i) == L.rng[i] < MinR \/ L.rng[i] > MaxR
IPar(L, i) == /\ Abs(L.rng[i - 1] - L.rng[i]) * 100 > Ratio * L.rng[i]
              /\ Abs(L.rng[i + 1] - L.rng[i]) * 100 > Ratio * L.rng[i]
S == INSTANCE ScanLine WITH Higher <- IHigher, EdgeQ <- IEdge, SurfQ <- ISurf, Jump <- IJump,
       OutQ <- IOut, ParQ <- IPar, Cap <- 500

Init == line = [n |-> N, p |-> Pad, nb |-> NB, rng |-> <<>>, adj |-> <<>>] /\ done = FALSE
Next == \/ /\ Len(line.rng) < N
           /\ \E r \in Ranges, a \in BOOLEAN :
                /\ Len(line.rng) = 0 => a
                /\ line' = [line EXCEPT !.rng = Append(@, r), !.adj = IF line.rng = <<>> THEN @ ELSE Append(@, a)]
           /\ UNCHANGED done
        \/ /\ Gen /\ Len(line.rng) = N /\ ~done
           /\ done' = TRUE /\ PrintT(<<"BEHAVIOUR", ToJson(line)>>) /\ UNCHANGED line
Spec == Init /\ [][Next]_<<line, done>>
Complete == Len(line.rng) = N

L == line
Con(i, j) == \A k \in i..(j - 1) : L.adj[k]
Near(i, j) == IF i <= j THEN j - i <= Pad /\ Con(i, j) ELSE i - j <= Pad /\ Con(j, i)
(* F01, declaratively, for every labelling the procedure can produce               *)
GoodBlock(B, lab) ==
  LET E == {i \in B : lab[i] = "E"}  F == {i \in B : lab[i] = "S"} IN
  /\ \A i \in E : Curv(L.rng, i) >= EdgeThr
  /\ \A i \in F : Curv(L.rng, i) <= SurfThr
  /\ \A i, j \in E : i # j => ~Near(i, j)
  /\ \A i, j \in F : i # j => ~Near(i, j)
  /\ \A i \in E, j \in F : ~Near(i, j)
  /\ \A i \in B \ E : Curv(L.rng, i) >= EdgeThr => \E j \in E : Near(i, j) /\ Curv(L.rng, j) >= Curv(L.rng, i)
  /\ \A i \in B \ F : (Curv(L.rng, i) <= SurfThr /\ ~\E j \in E : Near(i, j))
                        => \E j \in F : Near(i, j) /\ Curv(L.rng, j) <= Curv(L.rng, i)
SelectionOk == Complete =>
  \A j \in 1..NB : LET B == S!Block(L, j) r == S!BlockLabels(L, B) IN r # {} /\ \A lab \in r : GoodBlock(B, lab)
BlocksPartition == /\ \A j \in 1..NB : S!Block(L, j) # {}
                   /\ UNION {S!Block(L, j) : j \in 1..NB} = (Pad + 1)..(N - Pad)
                   /\ \A i, j \in 1..NB : i # j => S!Block(L, i) \cap S!Block(L, j) = {}
(* F02: no selectable point on the far side of a jump, out of range or sticking out *)
FeatureOk(i) ==
  LET f == S!Final(L, S!Occluded(L), "E", i) IN
  f = "E" => /\ L.rng[i] >= MinR /\ L.rng[i] <= MaxR
             /\ ~IPar(L, i)
             /\ ~(L.adj[i - 1] /\ L.rng[i] > L.rng[i - 1] + DistThr)
             /\ ~(L.adj[i] /\ L.rng[i] > L.rng[i + 1] + DistThr)
             /\ \A d \in 1..Pad : i - d >= 2 /\ Con(i - d, i) => ~(L.adj[i - d - 1] /\ IJump(L, i - d - 1, i - d))
             /\ \A d \in 1..Pad : i + d <= N - 1 /\ Con(i, i + d) => ~(L.adj[i + d] /\ IJump(L, i + d + 1, i + d))
UnreliableOk == Complete => \A i \in (Pad + 1)..(N - Pad) : FeatureOk(i)
(* and nothing else is taken away                                                   *)
KeepOk == Complete => \A i \in (Pad + 1)..(N - Pad) :
  S!Final(L, S!Occluded(L), "E", i) # "E" =>
    \/ IOut(L, i) \/ IPar(L, i)
    \/ \E a \in 1..(N - 1) : L.adj[a] /\ IJump(L, a, a + 1) /\ a + 1 <= i /\ i <= a + 1 + Pad /\ Con(a + 1, i)
    \/ \E a \in 1..(N - 1) : L.adj[a] /\ IJump(L, a + 1, a) /\ i <= a /\ a <= i + Pad /\ Con(i, a)
================================================================================
