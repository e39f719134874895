----------------------------- MODULE GenerateOps -----------------------------
(***************************************************************************)
(* What a generated model looks like (P20).  Integers: frequencies and     *)
(* their range in 1e-7, energies in 1e-6, linear terms in 1e-4 (those of   *)
(* the bound: frequency in 1e-5, scaling in 1e-9).                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Entry(c, t, a, b) == IF c.kind = "full" THEN t[a][b] ELSE t[a]
VerdictGenerated(c) ==
    IF c.refused THEN "a model with these parameters was refused"
    ELSE IF ~c.wellformed THEN "the generated model is not well formed"
    ELSE IF c.A \notin c.wantA[1]..c.wantA[2] \/ c.N \notin c.wantN[1]..c.wantN[2] THEN "dimensions of the generated model"
    ELSE IF \E i \in 1..c.N : Abs((c.w[i] - c.flo) * (IF c.N > 1 THEN c.N - 1 ELSE 1) - (c.fhi - c.flo) * (i - 1)) > c.N
         THEN "frequencies of the generated model"
    ELSE IF \E k \in 1..Len(c.E) : c.E[k] < c.elo - 1 \/ c.E[k] > c.ehi + 1 THEN "energies outside of their range"
    ELSE IF \E i \in 1..c.N : \E k \in 1..Len(c.G1[i]) :
              Abs(c.G1[i][k]) * c.w5[i] > c.lin + c.w5[i] + Abs(c.G1[i][k]) + 1
         THEN "linear terms outside of their range"
    ELSE IF ~c.higherzero THEN "terms of higher order in a generated model"
    ELSE IF ~c.symmetric THEN "the generated model is not symmetric"
    ELSE IF c.elo < c.ehi /\ c.edistinct # Len(c.E) THEN "energies are not drawn one by one"
    ELSE IF c.lin > 0 /\ c.gdistinct # c.N * Len(c.E) THEN "linear terms are not drawn one by one"
    ELSE IF ~c.untouched THEN "the request was changed"
    ELSE ""
\* many draws fill the range: [n, nlow, nhigh] = number of draws, in the lowest and the highest fifth of the range
VerdictSpread(c) ==
    IF c.n < 200 THEN ""
    ELSE IF c.nlow * 20 < c.n \/ c.nhigh * 20 < c.n THEN "draws do not fill their range"
    ELSE IF c.nlow * 5 > 2 * c.n \/ c.nhigh * 5 > 2 * c.n THEN "draws pile up at one end of their range"
    ELSE ""
=============================================================================
