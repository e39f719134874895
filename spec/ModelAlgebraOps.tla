--------------------------- MODULE ModelAlgebraOps ---------------------------
(***************************************************************************)
(* Derived models (P11) and similarity transformed models (P12), on models *)
(* with integer entries.  A model is a record of nested sequences          *)
(*   w[i], E[a][b], G1[i][a][b], G2[i][j][a][b], ...                       *)
(* a diagonal model has one surface index instead of two.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

RECURSIVE At(_, _)
At(arr, idx) == IF idx = <<>> THEN arr ELSE At(arr[Head(idx)], Tail(idx))

Coupled == {"E", "G1", "G2", "G3", "G4"}
ModeRank(k) == CASE k = "E" -> 0 [] k = "G1" -> 1 [] k = "G2" -> 2 [] k = "G3" -> 3 [] k = "G4" -> 4
ModeIdx(k, N) == [1..ModeRank(k) -> 1..N]
Keys(c) == Coupled \intersect Range(c.keys)

SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
SumOver(n, f(_)) == SumSeq([i \in 1..n |-> f(i)])

\* ---- P11: removing the coupling keeps exactly the state-diagonal entries
VerdictUncouple(c) ==
    IF c.refused THEN "removing the coupling failed"
    ELSE IF c.outdims # <<c.A, c.N>> THEN "dimensions of the uncoupled model"
    ELSE IF c.out.w # c.in.w THEN "frequencies of the uncoupled model"
    ELSE IF \E k \in Keys(c) : \E m \in ModeIdx(k, c.N), a \in 1..c.A :
                At(c.out[k], m \o <<a>>) # At(c.in[k], m \o <<a, a>>)
         THEN "diagonal entries of the uncoupled model"
    ELSE IF c.source_changed THEN "the coupled model was modified"
    ELSE ""

VerdictZeroOff(c) ==
    IF c.refused THEN "zeroing the off-diagonal failed"
    ELSE IF c.out.w # c.in.w THEN "frequencies changed"
    ELSE IF \E k \in Keys(c) : \E m \in ModeIdx(k, c.N), a, b \in 1..c.A :
                At(c.out[k], m \o <<a, b>>) # (IF a = b THEN At(c.in[k], m \o <<a, b>>) ELSE 0)
         THEN "entries after zeroing the off-diagonal"
    ELSE ""

\* ---- P12: new = U old U^T in the surface indices, for every array and every choice of modes
\* U is given as integers U over the denominator den; old entries are integers over D, and the
\* new entries are given as integers over D*den^2
Rotated(c, k, m, a, b) ==
    SumOver(c.A, LAMBDA j : SumOver(c.A, LAMBDA l :
        c.U[a][j] * At(c.in[k], m \o <<j, l>>) * c.U[b][l]))
VerdictRotate(c) ==
    IF c.refused THEN "the transformation failed"
    ELSE IF c.outdims # <<c.A, c.N>> THEN "dimensions of the transformed model"
    ELSE IF c.out.w # c.in.w THEN "frequencies changed by the transformation"
    ELSE IF ~c.exact THEN "transformed entries are not on the exact lattice"
    ELSE IF \E k \in Keys(c) : \E m \in ModeIdx(k, c.N), a, b \in 1..c.A :
                At(c.out[k], m \o <<a, b>>) # Rotated(c, k, m, a, b)
         THEN "entries of the transformed model"
    ELSE ""
Orthonormal(U, den, A) ==
    \A a, b \in 1..A : SumOver(A, LAMBDA j : U[a][j] * U[b][j]) = (IF a = b THEN den * den ELSE 0)

\* ---- lowest adiabatic energy at the minimum of each oscillator of a diagonal model
RECURSIVE Det(_, _)
Minor(M, n, r, c) == [i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
                        M[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
Det(M, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN M[1][1]
             ELSE SumOver(n, LAMBDA j : (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, n, 1, j), n - 1))
SubMatrix(M, S) == LET s == SetToSortSeq(S, <) IN [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> M[s[i]][s[j]]]]
\* symmetric M: positive semidefinite iff every principal minor is >= 0
PSD(M, n) == \A S \in (SUBSET (1..n)) \ {{}} : Det(SubMatrix(M, S), Cardinality(S)) >= 0
LowestEigenvalue(M, n, x) ==
    LET R == [i \in 1..n |-> [j \in 1..n |-> M[i][j] - (IF i = j THEN x ELSE 0)]]
    IN  PSD(R, n) /\ Det(R, n) = 0
\* a matrix that falls apart into blocks (sequence of sequences of indices)
Block(M, s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> M[s[i]][s[j]]]]
LowestOfBlocks(M, n, blocks, x) ==
    LET R == [i \in 1..n |-> [j \in 1..n |-> M[i][j] - (IF i = j THEN x ELSE 0)]]
        in(i, j) == \E b \in 1..Len(blocks) : {i, j} \subseteq Range(blocks[b])
    IN  /\ \A i, j \in 1..n : in(i, j) \/ (i # j /\ R[i][j] = 0)
        /\ \A b \in 1..Len(blocks) : PSD(Block(R, blocks[b]), Len(blocks[b]))
        /\ \E b \in 1..Len(blocks) : Det(Block(R, blocks[b]), Len(blocks[b])) = 0

\* coordinates of the minimum of oscillator a: -lin/w (integers by construction of the cases)
MinimumOf(c, a) == [i \in 1..c.N |-> (0 - c.lin[i][a]) \div c.wd[i]]
\* twice s times the potential matrix at q:  V = E + 1/2 sum w q^2 + sum G1 q + 1/2 sum q G2 q
Potential2(c, q) ==
    [x \in 1..c.A |-> [y \in 1..c.A |->
        2 * c.E[x][y] + 2 * SumOver(c.N, LAMBDA i : c.G1[i][x][y] * q[i])
        + (IF c.quadratic THEN SumOver(c.N, LAMBDA i : SumOver(c.N, LAMBDA j : c.G2[i][j][x][y] * q[i] * q[j])) ELSE 0)
        + (IF x = y THEN c.s * SumOver(c.N, LAMBDA i : c.w[i] * q[i] * q[i]) ELSE 0)]]
VerdictAdiabatic(c) ==
    \* models with quadratic terms may be refused (but not be treated as if they had none)
    IF c.refused /\ (c.quadratic \/ c.dquadratic) THEN (IF c.others_changed THEN "a refused re-weighting changed the model" ELSE "")
    ELSE IF c.dquadratic THEN "energies of a diagonal model whose quadratic terms were ignored"
    ELSE IF c.refused THEN "single point energies failed"
    ELSE IF Len(c.e2) # c.Ad THEN "number of single point energies"
    ELSE IF ~c.exact THEN "single point energies are not exact"
    ELSE IF \E a \in 1..c.Ad : ~LowestOfBlocks(Potential2(c, MinimumOf(c, a)), c.A, c.blocks, c.e2[a])
         THEN "single point energy is not the lowest adiabatic energy at the minimum"
    ELSE IF c.reweight /\ \E a \in 1..c.Ad :
                c.new2[a] # c.e2[a] + c.s * SumOver(c.N, LAMBDA i : (c.lin[i][a] * c.lin[i][a]) \div c.wd[i])
         THEN "re-weighted energies of the diagonal model"
    ELSE IF c.reweight /\ c.others_changed THEN "re-weighting changed other parameters"
    ELSE ""
=============================================================================
