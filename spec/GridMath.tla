------------------------------ MODULE GridMath ------------------------------
(* Cells of an R x C grid coded as row * C + col; squared distances.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Row(c, C) == c \div C
Col(c, C) == c % C
Sq(x) == x * x
D2(a, b, C) == Sq(Row(a, C) - Row(b, C)) + Sq(Col(a, C) - Col(b, C))
\* smallest squared distance from cell c to a cell of S; -1 if S is empty
Nearest2(c, S, C) ==
    IF S = {} THEN -1
    ELSE LET ds == TLCEval({ D2(c, o, C) : o \in S }) IN CHOOSE d \in ds : \A e \in ds : d <= e
\* floor of the square root
RECURSIVE ISqrtR(_, _, _)
ISqrtR(v, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= v THEN ISqrtR(v, m, hi) ELSE ISqrtR(v, lo, m - 1)
ISqrt(v) == IF v <= 0 THEN 0 ELSE ISqrtR(v, 0, 46340)
Neighbours(c, R, C) ==
    LET r == Row(c, C) q == Col(c, C) IN
    { x * C + y : x \in { z \in (r - 1)..(r + 1) : z >= 0 /\ z < R }, y \in { z \in (q - 1)..(q + 1) : z >= 0 /\ z < C } } \ {c}
\* TLC compares functions lazily; force evaluation of a set
ToSet(s) == TLCEval({ s[i] : i \in DOMAIN s })
=============================================================================
