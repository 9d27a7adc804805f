----------------------------- MODULE ConversionsMC ------------------------------
(* The laws of Conversions over small matrices and index lists.                         *)
EXTENDS Conversions
CONSTANTS MaxRows, MaxIdx
VARIABLES m, idx
vars == <<m, idx>>
Rows == {<<"1.0", "2.0", "3.0">>, <<"-1.0", "0.5", "4.0">>, <<"0.0", "0.0", "9.0">>}
Init == m = <<>> /\ idx = <<>>
AddRow == idx = <<>> /\ Len(m) < MaxRows /\ \E r \in Rows : m' = Append(m, r) /\ UNCHANGED idx
AddIdx == m # <<>> /\ Len(idx) < MaxIdx /\ \E i \in 0..(Len(m) - 1) : idx' = Append(idx, i) /\ UNCHANGED m
Next == AddRow \/ AddIdx
Spec == Init /\ [][Next]_vars
All == [i \in 1..Len(m) |-> i - 1]
SelectAll == RowsAt(m, All) = m
SelectEach == \A i \in 1..Len(idx) : RowsAt(m, idx)[i] = m[idx[i] + 1]
SelectStacks == LET k == Len(idx) \div 2 IN RowsAt(m, SubSeq(idx, 1, k)) \o RowsAt(m, SubSeq(idx, k + 1, Len(idx))) = RowsAt(m, idx)
WhereExact == \A r \in Rows : LET w == Where(m, r) IN
  {w[i] + 1 : i \in 1..Len(w)} = {i \in 1..Len(m) : m[i] = r} /\ \A i \in 1..(Len(w) - 1) : w[i] < w[i + 1]
Flattened == Len(m) = 3 => Square(Flat(m), 3) = m /\ Flat(m) = Stacked(m)
Q == QRpy("0.3", "-0.8", "2.0")
T == PoseOf(Q, <<"1.0", "-2.0", "0.5">>)
Rigid == \A i, j \in 1..Len(m) : FClose(VNorm(VSub(PMul(T, m[i]), PMul(T, m[j]))), VNorm(VSub(m[i], m[j])), "1e-9", "1e-9")
KeepsRest == \A i \in 1..Len(m) : SubSeq(Moved(T, m[i] \o <<"7.0", "8.0">>), 4, 5) = <<"7.0", "8.0">>
CellsCover == m # <<>> => LET c == CellMeans(m, "2.0") IN Cardinality(c) <= Len(m) /\ Cardinality(c) >= 1
================================================================================
