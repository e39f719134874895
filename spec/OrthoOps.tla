------------------------------- MODULE OrthoOps -------------------------------
(***************************************************************************)
(* The family of orthonormal matrices U(order, t), t in [0, 1] (P17).      *)
(* Distances and errors are integers in units of 1e-6.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
\* the table: from a strictly increasing sequence of distances starting at 0 pick the largest one
\* that does not exceed num/den of the last one  (index into tab)
Pick(tab, num, den) == Max({i \in DOMAIN tab : tab[i] * den <= tab[Len(tab)] * num})

\* t times the largest distance, split so that no product leaves the integer range of TLC
Target(c) == ((c.dmax \div 1000) * c.t) \div 1000 + ((c.dmax % 1000) * c.t) \div 1000000
\* one observed matrix
\*  [order, t (1e-6), err = max |U U^T - 1| (1e-12), dist, dmax = dist at t = 1, gap = largest table gap, rotation]
VerdictMatrix(c) ==
    IF c.valid /\ c.refused THEN "a matrix in the allowed range was refused"
    ELSE IF ~c.valid /\ ~c.refused THEN "a tuning parameter outside [0, 1] was accepted"
    ELSE IF ~c.valid THEN ""
    ELSE IF c.shape # <<c.order, c.order>> THEN "shape of the matrix"
    ELSE IF c.err > 1000 THEN "matrix is not orthonormal"
    ELSE IF ~c.again THEN "the same request gives another matrix"
    ELSE IF c.t = 0 /\ ~c.identity THEN "t = 0 is not the identity"
    ELSE IF c.dmax > 2000000 THEN "largest distance above a quarter of the period"
    ELSE IF c.dist > Target(c) + 25 THEN "distance larger than t times the largest distance"
    ELSE IF c.dist + c.gap + 25 < Target(c) THEN "distance smaller than t times the largest distance"
    ELSE ""
\* largest distance: one quarter of 2 sqrt(order), to the resolution of the tables
VerdictRange(c) ==
    LET d == c.dmax \div 1000    \* 1e-3
    IN IF c.refused THEN "a matrix in the allowed range was refused"
       ELSE IF d > 2000 THEN "largest distance above a quarter of the period"
       ELSE IF 4 * d * d > c.order * 1000000 + 4000 THEN "largest distance above a quarter of the period"
       ELSE IF 4 * d * d * 100 < c.order * 1000000 * 92 THEN "largest distance far below a quarter of the period"
       ELSE ""
\* a chain of increasing tuning parameters: distances never decrease, and increase with clear steps
VerdictChain(c) ==
    IF \E i \in 1..(Len(c.dist) - 1) : c.dist[i + 1] < c.dist[i] THEN "distance decreases with the tuning parameter"
    ELSE IF \E i \in 1..(Len(c.dist) - 1) : (c.t[i + 1] - c.t[i] >= 2000) /\ c.dist[i + 1] <= c.dist[i]
         THEN "distance does not grow with the tuning parameter"
    ELSE ""
\* selection from a small table
VerdictPick(c) ==
    IF c.refused THEN "selection from a valid table failed"
    ELSE IF c.got # (IF c.num = 0 THEN 1 ELSE Pick(c.tab, c.num, c.den)) THEN "selected table entry"
    ELSE ""
=============================================================================
