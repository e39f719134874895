---------------------------- MODULE IntegrandOps ----------------------------
(***************************************************************************)
(* The integrand of the path integral as an exact formal sum (P01).        *)
(*                                                                         *)
(* The frequency w[n] of every mode and the imaginary time step tau are    *)
(* symbols; so are                                                         *)
(*    coth_n = coth(tau w[n])   and   csch_n = csch(tau w[n]).             *)
(* Coordinates are integers times a length d.  A diagonal linear           *)
(* coefficient is k * d * w[n] (k integer), so the displacement is -k * d  *)
(* and the energy it gains is -1/2 * SUM k^2 * d^2 * w[n].  Energies and   *)
(* couplings are integers over u (linear ones over u*d, quadratic ones     *)
(* over u*d^2).                                                            *)
(*                                                                         *)
(* The coupling matrix at the coordinates q is f(q) * I + g(q) * S with a  *)
(* fixed integer matrix S = SUM s[i] * Proj[i] (spectral decomposition     *)
(* with rational projectors), so that its exponential is exact, too.       *)
(*                                                                         *)
(* A formal term is  c * exp( SUM_n d^2 * (p[n] * csch_n - q[n] / 2 *      *)
(*    coth_n + tau * w[n] * h[n] / 2) + tau * x / (2 u) )                  *)
(* with integers c, q[n], p[n], h[n], x, and the common factor             *)
(* PROD_n csch_n^(beads / 2) is left to the reader.  The same sum gives    *)
(* the integrand at every time step.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Sum(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)

Modes(m) == 1..Len(m.k[1])
\* displaced coordinates: q - d = q + k
Y(m, a, n, b) == b[n] + m.k[a][n]
\* mode n of the link between two neighbouring beads on surface a: squares (with coth) and product (with csch)
LinkQ(m, a, n, b, c) == Y(m, a, n, b) * Y(m, a, n, b) + Y(m, a, n, c) * Y(m, a, n, c)
LinkP(m, a, n, b, c) == Y(m, a, n, b) * Y(m, a, n, c)
\* energy of surface a per bead and the gain of the displacement
LinkX(m, a) == -(2 * m.E[a])
LinkH(m, a, n) == m.k[a][n] * m.k[a][n]
NextBead(path, p) == path[(p % Len(path)) + 1]

\* ---- rho: uncoupled surfaces, trace of the product over beads
RhoTerm(m, path, a) ==
    [c |-> 1,
     q |-> [n \in Modes(m) |-> Sum(1..Len(path), LAMBDA p : LinkQ(m, a, n, path[p], NextBead(path, p)))],
     p |-> [n \in Modes(m) |-> Sum(1..Len(path), LAMBDA p : LinkP(m, a, n, path[p], NextBead(path, p)))],
     x |-> Len(path) * LinkX(m, a), h |-> [n \in Modes(m) |-> Len(path) * LinkH(m, a, n)]]
Rho(m, path) == [a \in 1..Len(m.E) |-> RhoTerm(m, path, a)]

\* ---- coupling at a bead, twice the value, in quarters
Bil(M, b) == Sum((1..Len(b)) \X (1..Len(b)), LAMBDA nm : b[nm[1]] * M[nm[1]][nm[2]] * b[nm[2]])
F2(m, b) == Bil(m.phi, b)
G2(m, b) == 2 * m.e + 2 * Sum(1..Len(b), LAMBDA n : m.l[n] * b[n]) + Bil(m.mu, b)

\* ---- g: trace of PROD_p exp(-tau V(q_p)) O(p), as a sum over surfaces and eigenvalues visited at each bead
A(m) == Len(m.E)
Coupled(m) == m.e # 0 \/ (\E n \in Modes(m) : m.l[n] # 0) \/ (\E n, k \in Modes(m) : m.mu[n][k] # 0)
\* from surface s[p] the coupling takes us to s[p+1] (cyclic), and the link is on surface s[p+1]
GTerm(m, path, s, e) ==
    LET P == Len(path)
        Nx(p) == s[(p % P) + 1]
        coef == FoldFunction(LAMBDA x, y : x * y, 1, [p \in 1..P |-> m.Proj[e[p]][s[p]][Nx(p)]])
    IN  [c |-> coef,
         q |-> [n \in Modes(m) |-> Sum(1..P, LAMBDA p : LinkQ(m, Nx(p), n, path[p], NextBead(path, p)))],
         p |-> [n \in Modes(m) |-> Sum(1..P, LAMBDA p : LinkP(m, Nx(p), n, path[p], NextBead(path, p)))],
         x |-> Sum(1..P, LAMBDA p : LinkX(m, Nx(p)) - (F2(m, path[p]) + m.s[e[p]] * G2(m, path[p]))),
         h |-> [n \in Modes(m) |-> Sum(1..P, LAMBDA p : LinkH(m, Nx(p), n))]]
\* terms whose coefficient does not vanish; divided by m.pd^beads
GTerms(m, path) ==
    LET P == Len(path)
        ix == {<<s, e>> : s \in [1..P -> 1..A(m)], e \in [1..P -> 1..Len(m.s)]}
        nz == {i \in ix : \A p \in 1..P : m.Proj[i[2][p]][i[1][p]][i[1][(p % P) + 1]] # 0}
    IN  [i \in nz |-> GTerm(m, path, i[1], i[2])]
\* without coupling only the surfaces themselves remain
GUncoupled(m, path) ==
    [a \in 1..A(m) |-> [RhoTerm(m, path, a) EXCEPT !.x = @ - Sum(1..Len(path), LAMBDA p : F2(m, path[p]))]]
\* surfaces of the same energy and displacement: everything commutes, one term per eigenvalue of the coupling
Alike(m) == \A a \in 1..A(m) : m.E[a] = m.E[1] /\ m.k[a] = m.k[1]
GAlike(m, path) ==
    [i \in 1..Len(m.s) |->
        [RhoTerm(m, path, 1) EXCEPT !.c = Sum(1..A(m), LAMBDA a : m.Proj[i][a][a]) \div m.pd,
            !.x = @ - Sum(1..Len(path), LAMBDA p : F2(m, path[p]) + m.s[i] * G2(m, path[p]))]]
List(f) == LET q == SetToSeq(DOMAIN f) IN [i \in 1..Len(q) |-> LET t == f[q[i]] IN <<t.c, t.q, t.p, t.x, t.h>>]
\* bag of terms, equal terms collected (a zero coefficient disappears)
Collect(f) ==
    LET keys == {<<f[i].q, f[i].p, f[i].x, f[i].h>> : i \in DOMAIN f}
        tot(k) == FoldSet(LAMBDA i, acc : acc + (IF <<f[i].q, f[i].p, f[i].x, f[i].h>> = k THEN f[i].c ELSE 0), 0, DOMAIN f)
        nz == {k \in keys : tot(k) # 0}
    IN  [k \in nz |-> tot(k)]

\* the spectral decomposition given with a model is right
MatMul(X, Z) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Sum(1..Len(X), LAMBDA r : X[i][r] * Z[r][j])]]
Ident(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN v ELSE 0]]
WellFormed(m) ==
    /\ \A i, j \in 1..Len(m.s) : MatMul(m.Proj[i], m.Proj[j]) =
           (IF i = j THEN [r \in 1..A(m) |-> [c \in 1..A(m) |-> m.pd * m.Proj[i][r][c]]] ELSE Ident(A(m), 0))
    /\ [r \in 1..A(m) |-> [c \in 1..A(m) |-> Sum(1..Len(m.s), LAMBDA i : m.Proj[i][r][c])]] = Ident(A(m), m.pd)
    /\ [r \in 1..A(m) |-> [c \in 1..A(m) |-> Sum(1..Len(m.s), LAMBDA i : m.s[i] * m.Proj[i][r][c])]]
         = [r \in 1..A(m) |-> [c \in 1..A(m) |-> m.pd * m.S[r][c]]]
    \* linear and constant coupling have no diagonal: that part is folded into the surfaces
    /\ (m.e # 0 \/ \E n \in Modes(m) : m.l[n] # 0) => \A a \in 1..A(m) : m.S[a][a] = 0
    /\ \A n, k \in Modes(m) : m.mu[n][k] = m.mu[k][n] /\ m.phi[n][k] = m.phi[k][n]
=============================================================================
