-------------------------------- MODULE Converter --------------------------------
(* The point type converter: clouds of any layout become clouds of one layout.      *)
(* A field is [name, offset, datatype]; a point is the sequence of its field values *)
(* in the order of the field list.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
SizeOf(t) == <<1, 1, 2, 2, 4, 4, 4, 8>>[t]
FloatType(t) == t \in {7, 8}
OutFields == <<
  [name |-> "x", offset |-> 0, datatype |-> 7, count |-> 1],
  [name |-> "y", offset |-> 4, datatype |-> 7, count |-> 1],
  [name |-> "z", offset |-> 8, datatype |-> 7, count |-> 1],
  [name |-> "padding", offset |-> 12, datatype |-> 7, count |-> 1],
  [name |-> "intensity", offset |-> 16, datatype |-> 7, count |-> 1],
  [name |-> "ring", offset |-> 20, datatype |-> 4, count |-> 1]>>
OutStep == 32
Carried == <<"x", "y", "z", "intensity", "ring">>
Find(fields, name) == {k \in 1..Len(fields) : fields[k].name = name}
(* the value a point holds under a name                                              *)
Under(fields, point, name, default) ==
  IF Find(fields, name) = {} THEN default ELSE point[CHOOSE k \in Find(fields, name) : TRUE]
Named(fields, point, default) == [i \in 1..Len(Carried) |-> Under(fields, point, Carried[i], default)]
Disjoint(fields) == \A a, b \in 1..Len(fields) : a # b =>
  \/ fields[a].offset + SizeOf(fields[a].datatype) <= fields[b].offset
  \/ fields[b].offset + SizeOf(fields[b].datatype) <= fields[a].offset
(* the points that are carried over, in order                                        *)
Kept(fields, points, IsOrigin(_), default) ==
  SelectSeq([i \in 1..Len(points) |-> Named(fields, points[i], default)], LAMBDA v : ~IsOrigin(SubSeq(v, 1, 3)))
================================================================================
