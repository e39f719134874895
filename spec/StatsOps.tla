------------------------------- MODULE StatsOps -------------------------------
(***************************************************************************)
(* Thermodynamic estimators (P15) and their jackknife versions (P16) in    *)
(* exact rational arithmetic.                                              *)
(*                                                                         *)
(* One sample is <<r, a, p, m>>: the density is r in {1, 2, 4} and the     *)
(* ratios g/rho, g+/rho, g-/rho are a/4, p/4, m/4.  A rational is <<n, d>>.*)
(* Energies are in units of 1/(2 db), heat capacities in 1/(kB T^2 db^2):  *)
(*   Z  = <g/rho>                       E = -<g+/rho - g-/rho>/(2 db)/Z    *)
(*   Cv = (<g+/rho - 2 g/rho + g-/rho>/db^2/Z - E^2)/(kB T^2)              *)
(* In the alpha variant g+/rho and g-/rho are weighted by al, be.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Sum(s, f(_)) == FoldSeq(LAMBDA x, y : f(x) + y, 0, s)
A(x) == x[2]
Sq(x) == x[2] * x[2]

Tot(s, al, be) ==
    [S |-> Sum(s, A),
     D1 |-> Sum(s, LAMBDA x : al * x[3] - be * x[4]),
     D2 |-> Sum(s, LAMBDA x : al * x[3] - 2 * x[2] + be * x[4])]

\* estimators of a set of samples given its totals
EnergyOf(t) == <<0 - t.D1, t.S>>
HeatOf(t)   == <<4 * t.D2 * t.S - t.D1 * t.D1, 4 * t.S * t.S>>

Z(s) == <<Sum(s, A), 4 * Len(s)>>
\* square of the reported error of Z: population variance / (X - 1)
ZVar(s) == LET X == Len(s) IN <<X * Sum(s, Sq) - Sum(s, A) * Sum(s, A), 16 * X * X * (X - 1)>>
E(s, al, be) == EnergyOf(Tot(s, al, be))
Cv(s, al, be) == HeatOf(Tot(s, al, be))

\* leave sample i out
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EWithout(s, i, al, be) == E(Without(s, i), al, be)
CvWithout(s, i, al, be) == Cv(Without(s, i), al, be)

Usable(s) == /\ Sum(s, A) # 0
             /\ \A i \in DOMAIN s : Sum(Without(s, i), A) # 0

Expect(s, al, be) ==
    [z |-> Z(s), zvar |-> ZVar(s), e |-> E(s, al, be), cv |-> Cv(s, al, be),
     je |-> [i \in DOMAIN s |-> EWithout(s, i, al, be)],
     jcv |-> [i \in DOMAIN s |-> CvWithout(s, i, al, be)]]
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
=============================================================================
