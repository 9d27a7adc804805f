------------------------------- MODULE Reals64 -------------------------------
(* IEEE-754 double arithmetic for TLC.  A real is a STRING holding a decimal   *)
(* (or C99 hexadecimal) floating point literal, "nan", "inf" or "-inf"; an     *)
(* Int is accepted wherever a real is expected.  TLC evaluates these operators *)
(* through java/Reals64Impl.java; a matrix is a sequence of rows.  Only the     *)
(* arithmetic primitives live in Java: every formula of the system is written  *)
(* out in the TLA+ modules that extend this one.                               *)
EXTENDS Integers, Sequences

FOf(a) == CHOOSE x \in STRING : TRUE        \* Int or literal -> canonical real
FAdd(a, b) == CHOOSE x \in STRING : TRUE
FSub(a, b) == CHOOSE x \in STRING : TRUE
FMul(a, b) == CHOOSE x \in STRING : TRUE
FDiv(a, b) == CHOOSE x \in STRING : TRUE
FSqrt(a) == CHOOSE x \in STRING : TRUE
FSin(a) == CHOOSE x \in STRING : TRUE
FCos(a) == CHOOSE x \in STRING : TRUE
FAtan2(a, b) == CHOOSE x \in STRING : TRUE
FAsin(a) == CHOOSE x \in STRING : TRUE
FAcos(a) == CHOOSE x \in STRING : TRUE
FExp(a) == CHOOSE x \in STRING : TRUE
F32(a) == CHOOSE x \in STRING : TRUE         \* nearest single-precision value
FLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE
FIsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FIsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
FTrunc(a) == CHOOSE x \in Int : TRUE         \* saturating truncation
FRound(a) == CHOOSE x \in Int : TRUE         \* saturating round-half-away
FClose(a, b, rel, abs) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= abs + rel*max
MMul(a, b) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
MAdd(a, b) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
MSub(a, b) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
MT(a) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
MInv(a) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
MClose(a, b, rel, abs) == CHOOSE x \in BOOLEAN : TRUE
MFinite(a) == CHOOSE x \in BOOLEAN : TRUE

FSecs(s1, n1, s2, n2) == CHOOSE x \in STRING : TRUE     \* time difference [s]
MMinEig(a) == CHOOSE x \in STRING : TRUE                \* of a symmetric matrix
MEig(a) == CHOOSE x \in Seq(Seq(STRING)) : TRUE         \* <<values ascending, vectors>>

FNeg(a) == FSub(0, a)
FAbs(a) == IF FLe(a, 0) THEN FNeg(a) ELSE FOf(a)
FMax(a, b) == IF FLt(a, b) THEN FOf(b) ELSE FOf(a)
FMin(a, b) == IF FLt(b, a) THEN FOf(b) ELSE FOf(a)
FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
FSq(a) == FMul(a, a)

RECURSIVE FSumTo(_, _)
FSumTo(s, n) == IF n = 0 THEN "0.0" ELSE FAdd(FSumTo(s, n - 1), s[n])
FSum(s) == FSumTo(s, Len(s))

RECURSIVE FMaxTo(_, _)
FMaxTo(s, n) == IF n = 1 THEN FOf(s[1]) ELSE FMax(FMaxTo(s, n - 1), s[n])
FMaxOf(s) == FMaxTo(s, Len(s))
FSumAbs(s) == FSum([i \in 1..Len(s) |-> FAbs(s[i])])
MZero(r, c) == [i \in 1..r |-> [j \in 1..c |-> "0.0"]]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1.0" ELSE "0.0"]]
MCol(v) == [i \in 1..Len(v) |-> <<v[i]>>]      \* vector -> column matrix
MVec(m) == [i \in 1..Len(m) |-> m[i][1]]       \* column matrix -> vector
MDiag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0.0"]]
MBlock(m, i0, j0, r, c) == [i \in 1..r |-> [j \in 1..c |-> m[i0 + i][j0 + j]]]
MScale(m, s) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> FMul(m[i][j], s)]]
VClose(a, b, rel, abs) == MClose(<<a>>, <<b>>, rel, abs)
=============================================================================
