------------------------------- MODULE ConverterMC -------------------------------
(* Byte cells.  A layout is built field by field with gaps; the cells of n points    *)
(* are then read one after another, skipping gaps; the points read become output     *)
(* rows.  Whatever the layout, each value read consists of exactly the cells of its  *)
(* own field of its own point, and the output holds them by name, in order.          *)
EXTENDS Converter, TLC, Json
CONSTANTS Names, Types, Gaps, MaxFields, MaxPoints, Gen
VARIABLES fields, step, n, zero, phase, pos, point, field, got, rows
vars == <<fields, step, n, zero, phase, pos, point, field, got, rows>>
End == IF fields = <<>> THEN 0 ELSE fields[Len(fields)].offset + SizeOf(fields[Len(fields)].datatype)
Init == /\ fields = <<>> /\ step = 0 /\ n = 0 /\ zero = {} /\ phase = "layout"
        /\ pos = 0 /\ point = 0 /\ field = 1 /\ got = <<>> /\ rows = <<>>
AddField == /\ phase = "layout" /\ Len(fields) < MaxFields
            /\ \E name \in Names, t \in Types, g \in Gaps :
                 /\ Find(fields, name) = {}
                 /\ fields' = Append(fields, [name |-> name, offset |-> End + g, datatype |-> t])
            /\ UNCHANGED <<step, n, zero, phase, pos, point, field, got, rows>>
Close == /\ phase = "layout" /\ fields # <<>>
         /\ \E g \in Gaps, k \in 0..MaxPoints, z \in SUBSET (1..MaxPoints) :
              /\ z \subseteq 1..k
              /\ step' = End + g /\ n' = k /\ zero' = z
              /\ (Gen => PrintT(<<"BEHAVIOUR", ToJson([fields |-> fields, step |-> End + g, n |-> k, zero |-> [i \in 1..k |-> i \in z]])>>))
         /\ phase' = "read"
         /\ UNCHANGED <<fields, pos, point, field, got, rows>>
(* the content of the cell at a position: whose byte it is                            *)
Cell(p) == LET i == p \div step o == p % step
               own == {k \in 1..Len(fields) : fields[k].offset <= o /\ o < fields[k].offset + SizeOf(fields[k].datatype)} IN
           IF own = {} THEN <<i + 1, "gap", o>> ELSE LET k == CHOOSE k \in own : TRUE IN <<i + 1, fields[k].name, o - fields[k].offset>>
Reading == phase = "read" /\ ~Gen
Skip == /\ Reading /\ point < n
        /\ LET at == pos - point * step IN
           /\ \/ field <= Len(fields) /\ at < fields[field].offset
              \/ field > Len(fields) /\ at < step
           /\ pos' = pos + 1
        /\ UNCHANGED <<fields, step, n, zero, phase, point, field, got, rows>>
Take == /\ Reading /\ point < n /\ field <= Len(fields) /\ pos - point * step = fields[field].offset
        /\ LET s == SizeOf(fields[field].datatype) v == [k \in 1..s |-> Cell(pos + k - 1)] IN
           /\ got' = IF field = 1 THEN Append(got, <<v>>) ELSE [got EXCEPT ![Len(got)] = Append(@, v)]
           /\ pos' = pos + s
        /\ field' = field + 1
        /\ UNCHANGED <<fields, step, n, zero, phase, point, rows>>
Turn == /\ Reading /\ point < n /\ field > Len(fields) /\ pos = (point + 1) * step
        /\ point' = point + 1 /\ field' = 1
        /\ UNCHANGED <<fields, step, n, zero, phase, pos, got, rows>>
Default == <<>>
Emit == /\ Reading /\ point = n
        /\ rows' = Kept(fields, [i \in 1..n |-> got[i]], LAMBDA v : \E i \in zero : \A k \in 1..3 : v[k] = Default \/ v[k][1][1] = i, Default)
        /\ phase' = "done"
        /\ UNCHANGED <<fields, step, n, zero, pos, point, field, got>>
Next == AddField \/ Close \/ Skip \/ Take \/ Turn \/ Emit
Spec == Init /\ [][Next]_vars
OwnCells == \A i \in 1..Len(got) : \A k \in 1..Len(got[i]) :
  got[i][k] = [b \in 1..SizeOf(fields[k].datatype) |-> <<i, fields[k].name, b - 1>>]
NeverApart == Disjoint(fields)
Complete == phase = "done" =>
  LET left == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin zero)
      xyz == \E k \in 1..3 : Find(fields, Carried[k]) # {} IN
  xyz => /\ Len(rows) = Len(left)
         /\ \A r \in 1..Len(rows) : \A c \in 1..Len(Carried) :
              IF Find(fields, Carried[c]) = {} THEN rows[r][c] = Default
              ELSE \A b \in 1..Len(rows[r][c]) : rows[r][c][b] = <<left[r], Carried[c], b - 1>>
ReadsAll == phase = "done" => pos = n * step
================================================================================
