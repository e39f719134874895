----------------------------- MODULE SamplingOps -----------------------------
(***************************************************************************)
(* The distribution the paths are drawn from (P03), in the units of        *)
(* IntegrandOps: a mixture of Gaussians, one per surface of the sampling   *)
(* model.  Mode n of surface a has mean -k[a][n] at every bead and inverse *)
(* covariance 2 coth I - csch C, C the circulant matrix of neighbouring    *)
(* beads, coth and csch of tau * w[n].                                     *)
(***************************************************************************)
EXTENDS IntegrandOps
\* inverse covariance: coefficients of coth and csch
Neighbour(P, i, j) == (i % P) + 1 = j \/ (j % P) + 1 = i
KCoth(i, j) == IF i = j THEN 2 ELSE 0
KCsch(P, i, j) == IF i # j /\ Neighbour(P, i, j) THEN -1 ELSE 0
Bilinear(P, y, K(_, _)) == Sum((1..P) \X (1..P), LAMBDA ij : y[ij[1]] * K(ij[1], ij[2]) * y[ij[2]])
\* relative weight of surface a, logarithm: beta * (x / (2 u) + SUM_n d^2 * w[n] * h[n] / 2)
Weight(r, a) == <<LinkX(r, a), [n \in Modes(r) |-> LinkH(r, a, n)]>>
\* the density that is evaluated is the density the paths are drawn from: weight times the Gaussian
Agrees(r, path) ==
    \A a \in 1..Len(r.E) :
        LET term == RhoTerm(r, path, a)
            P == Len(path)
        IN  /\ term.x = P * Weight(r, a)[1] /\ (\A n \in Modes(r) : term.h[n] = P * Weight(r, a)[2][n])
            /\ \A n \in Modes(r) :
                   LET y == [p \in 1..P |-> Y(r, a, n, path[p])]
                   IN  term.q[n] = Bilinear(P, y, KCoth) /\ 0 - 2 * term.p[n] = Bilinear(P, y, LAMBDA i, j : KCsch(P, i, j))
\* ---- judging the recorded response of the real draws: numbers times c.unit (covariance of one mode, c.cov) and times c.scale (coth and csch)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
VerdictCov(c) ==
    LET K(i, j) == c.coth * KCoth(i, j) + c.csch * KCsch(c.P, i, j)
        prod(i, j) == Sum(1..c.P, LAMBDA l : K(i, l) * c.cov[l][j])
        want(i, j) == IF i = j THEN c.scale * c.unit ELSE 0
    IN  IF \E i, j \in 1..c.P : Abs(prod(i, j) - want(i, j)) > c.tol THEN "covariance of the drawn paths" ELSE ""
=============================================================================
