------------------------------ MODULE Integrand ------------------------------
(* a path grows bead by bead; for every closed path the integrand of the coupled system at every  *)
(* time step and the sampling density are formal sums                                       *)
EXTENDS IntegrandOps, Json
CONSTANTS Coords, MaxBeads, MinBeads, Check
Models == ndJsonDeserialize("models.ndjson")     \* [v |-> coupled model, r |-> sampling model]
VARIABLES id, path
vars == <<id, path>>
V == Models[id].v
R == Models[id].r
Init == id \in 1..Len(Models) /\ path = <<>>
AddBead(b) == Len(path) < MaxBeads /\ path' = Append(path, b) /\ UNCHANGED id
Next == \E b \in [Modes(V) -> Coords] : AddBead(b)
Closed == Len(path) >= MinBeads
\* ---- properties of the specification
Sane == path = <<>> => WellFormed(V) /\ Modes(V) = Modes(R)
Rot(p) == [i \in 1..Len(p) |-> p[(i % Len(p)) + 1]]
\* neither depends on where the closed path starts
Cyclic == (Closed /\ Check) => /\ Collect(GTerms(V, Rot(path))) = Collect(GTerms(V, path))
                               /\ Rho(R, Rot(path)) = Rho(R, path)
Rev(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
\* the sampling density does not depend on the direction in which the path is run through
Reversible == Closed => Rho(R, Rev(path)) = Rho(R, path)
\* without coupling g is a sampling density with the potential f on top
UncoupledIsRho == (Closed /\ ~Coupled(V)) =>
    Collect([a \in 1..A(V) |-> [GUncoupled(V, path)[a] EXCEPT !.c = Pow(V.pd, Len(path))]]) = Collect(GTerms(V, path))
\* surfaces that are alike: the short form is the general one
AlikeIsG == (Closed /\ Check /\ Alike(V)) =>
    Collect([i \in 1..Len(V.s) |-> [GAlike(V, path)[i] EXCEPT !.c = @ * Pow(V.pd, Len(path))]]) = Collect(GTerms(V, path))
Emit == Closed =>
    PrintT("@@" \o ToJson([id |-> id, path |-> path, rho |-> List(Rho(R, path)), g |-> List(GTerms(V, path))]))
=============================================================================
