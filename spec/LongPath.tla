------------------------------- MODULE LongPath -------------------------------
(* many beads or surfaces: uncoupled systems, or surfaces that are alike, on paths that repeat a pattern; the formal sums stay short *)
EXTENDS IntegrandOps, Json
CONSTANTS Patterns, Repeats
Models == ndJsonDeserialize("models.ndjson")
VARIABLES id, path
Init == /\ id \in 1..Len(Models)
        /\ \E pat \in Patterns, r \in Repeats : path = [p \in 1..(r * Len(pat)) |-> pat[((p - 1) % Len(pat)) + 1]]
Next == UNCHANGED <<id, path>>
V == Models[id].v
R == Models[id].r
G == IF Coupled(V) THEN GAlike(V, path) ELSE GUncoupled(V, path)
Short == Coupled(V) => Alike(V)
Emit == (Len(path) > 0 /\ Len(path[1]) = Len(V.k[1])) => Short /\ PrintT("@@" \o ToJson([id |-> id, path |-> path, rho |-> List(Rho(R, path)),
        g |-> List(G), flat |-> 1]))
=============================================================================
