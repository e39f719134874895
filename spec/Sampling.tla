------------------------------ MODULE Sampling ------------------------------
(* every sample of a job gets a surface it is drawn from, once and for all; the blocks draw their samples from them *)
EXTENDS SamplingOps, Json
CONSTANTS MaxX, Coords, Beads
Models == ndJsonDeserialize("models.ndjson")       \* sampling models
VARIABLES id, src, B, drawn
vars == <<id, src, B, drawn>>
Rm == Models[id]
Init == id \in 1..Len(Models) /\ src = <<>> /\ B = 0 /\ drawn = <<>>
Choose(a) == B = 0 /\ Len(src) < MaxX /\ src' = Append(src, a) /\ UNCHANGED <<id, B, drawn>>
Start(b) == B = 0 /\ Len(src) > 0 /\ Len(src) % b = 0 /\ B' = b /\ UNCHANGED <<id, src, drawn>>
\* the centres of the paths of the next block
Draw == /\ B > 0 /\ Len(drawn) < Len(src)
        /\ drawn' = drawn \o [i \in 1..B |-> [n \in Modes(Rm) |-> 0 - Rm.k[src[Len(drawn) + i]][n]]]
        /\ UNCHANGED <<id, src, B>>
Next == (\E a \in 1..Len(Rm.E) : Choose(a)) \/ (\E b \in 1..MaxX : Start(b)) \/ Draw
Spec == Init /\ [][Next]_vars
OwnSurface == \A i \in 1..Len(drawn) : drawn[i] = [n \in Modes(Rm) |-> 0 - Rm.k[src[i]][n]]
DrawnIsEvaluated == (src = <<>> /\ B = 0) => \A path \in [1..Beads -> [Modes(Rm) -> Coords]] : Agrees(Rm, path)
Emit == (B > 0 /\ Len(drawn) = Len(src)) =>
    PrintT("@@" \o ToJson([id |-> id, src |-> src, B |-> B, centre |-> drawn, kernel |-> [i \in 1..Beads |-> [j \in 1..Beads |-> <<KCoth(i, j), KCsch(Beads, i, j)>>]],
        weight |-> [a \in 1..Len(Rm.E) |-> Weight(Rm, a)]]))
=============================================================================
