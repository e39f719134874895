---------------------------- MODULE ModelFileOps ----------------------------
(***************************************************************************)
(* Model parameter files (property P10).  The specification works with     *)
(* tokens instead of numbers: an array is 0 (all entries are zero, or the  *)
(* array is not given at all) or the number of the save that produced its  *)
(* entries.  The harness turns a token into concrete floating point data   *)
(* and recognises data by comparing it exactly.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Arrays == {"E", "w", "G1", "G2", "G3", "G4"}
Kinds  == {"full", "diag"}

\* rank of each array: number of mode indices followed by number of surface indices
ModeRank(k) == CASE k = "E" -> 0 [] k = "w" -> 1 [] k = "G1" -> 1 [] k = "G2" -> 2 [] k = "G3" -> 3 [] k = "G4" -> 4
SurfRank(kind, k) == IF k = "w" THEN 0 ELSE IF kind = "full" THEN 2 ELSE 1
Shape(kind, k, A, N) == [i \in 1..ModeRank(k) |-> N] \o [i \in 1..SurfRank(kind, k) |-> A]

Zeros == [k \in Arrays |-> 0]
\* what a file holds after saving a model whose arrays nz are the ones with a nonzero entry
Content(tok, nz) == [k \in Arrays |-> IF k \in nz THEN tok ELSE 0]

\* judgement of one recorded observation of the arrays of a loaded model
VerdictLoad(c) ==
    IF c.refused THEN "a well-formed file was refused"
    ELSE IF c.dims # c.expdims THEN "dimensions of the loaded model"
    ELSE IF \E k \in Arrays : c.got[k] # c.exp[k] THEN "arrays of the loaded model"
    ELSE IF \E k \in Arrays : c.shape[k] # <<>> /\ c.shape[k] # Shape(c.kind, k, c.expdims[1], c.expdims[2])
         THEN "shape of a loaded array"
    ELSE IF ~c.energies THEN "energies missing from the loaded model"
    ELSE ""
VerdictShapes(c) == IF \A k \in Arrays : c.shape[k] = Shape(c.kind, k, c.A, c.N) THEN "" ELSE "documented array shapes"
=============================================================================
