-------------------------------- MODULE Grids --------------------------------
(***************************************************************************)
(* Drawings of the parameters of a coupled model next to those of the      *)
(* model it was made from (P21).  The two model files and the sampling     *)
(* model change, a plotting object reads the two files when it loads, and  *)
(* draws what it read: one grid per array of surfaces, that is one for the *)
(* energies, one for each mode, one for each pair of modes.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims, Sets, Patterns,   \* patterns of arrays that are not all zero, as sets
          Samplings, MaxSteps, Ends
VARIABLES d, id, orig, vib, sampling, loaded, hist
vars == <<d, id, orig, vib, sampling, loaded, hist>>
None == [ver |-> 0, arrs |-> {}]
Kinds == {"energy", "linear", "quadratic"}
Array(kind) == CASE kind = "energy" -> "E" [] kind = "linear" -> "G1" [] OTHER -> "G2"
Modes(kind) == CASE kind = "energy" -> {<<>>} [] kind = "linear" -> {<<i>> : i \in 1..d[2]} [] OTHER -> (1..d[2]) \X (1..d[2])

Init == d \in Dims /\ id \in Sets /\ orig = None /\ vib = None /\ sampling = "none" /\ loaded = <<None, None>> /\ hist = <<>>
Room == Len(hist) < MaxSteps
Log(x) == hist' = Append(hist, x)
WriteVib(p) == /\ Room /\ vib' = [ver |-> Len(hist) + 1, arrs |-> p]
               /\ Log([op |-> "vib", ver |-> Len(hist) + 1, arrs |-> p]) /\ UNCHANGED <<d, id, orig, sampling, loaded>>
WriteOrig(p) == /\ Room /\ orig' = [ver |-> Len(hist) + 1, arrs |-> p]
                /\ Log([op |-> "orig", ver |-> Len(hist) + 1, arrs |-> p]) /\ UNCHANGED <<d, id, vib, sampling, loaded>>
\* the coupled model becomes the original one, a transformed model takes its place
Transform == /\ Room /\ vib.ver > 0 /\ orig' = vib /\ vib' = [vib EXCEPT !.ver = Len(hist) + 1]
             /\ Log([op |-> "transform", ver |-> Len(hist) + 1, from |-> vib.ver, arrs |-> vib.arrs]) /\ UNCHANGED <<d, id, sampling, loaded>>
Sampling(s) == /\ Room /\ s # sampling /\ sampling' = s /\ Log([op |-> "sampling", s |-> s]) /\ UNCHANGED <<d, id, orig, vib, loaded>>
Load == /\ Room /\ loaded' = IF orig.ver = 0 \/ vib.ver = 0 THEN loaded ELSE <<orig, vib>>
        /\ Log([op |-> "load", out |-> IF orig.ver = 0 \/ vib.ver = 0 THEN "refused" ELSE "ok"]) /\ UNCHANGED <<d, id, orig, vib, sampling>>
Able(kind) == \A k \in 1..2 : loaded[k].ver > 0 /\ Array(kind) \in loaded[k].arrs
Name(kind, k, m) ==
    (IF k = 1 THEN "original_" ELSE "coupled_") \o kind \o "_grid_D" \o ToString(id)
    \o (IF Len(m) > 0 THEN "_N" \o ToString(m[1]) ELSE "") \o (IF Len(m) > 1 THEN "_N" \o ToString(m[2]) ELSE "") \o ".pdf"
Drawn(kind) == IF ~Able(kind) THEN {}
               ELSE {[file |-> Name(kind, k, m), ver |-> loaded[k].ver, which |-> k, arr |-> Array(kind), modes |-> m] : k \in 1..2, m \in Modes(kind)}
Plot(kind) == /\ Room /\ Log([op |-> "plot", kind |-> kind, out |-> IF Able(kind) THEN "ok" ELSE "refused", drawn |-> Drawn(kind)])
              /\ UNCHANGED <<d, id, orig, vib, sampling, loaded>>
Next == \/ \E p \in Patterns : WriteVib(p) \/ WriteOrig(p)
        \/ Transform \/ Load \/ (\E s \in Samplings : Sampling(s)) \/ (\E k \in Kinds : Plot(k))
Spec == Init /\ [][Next]_vars

\* ---- properties
\* a file name stands for one grid, and all grids of both models are there
OneFileEach == \A k \in Kinds : Cardinality({x.file : x \in Drawn(k)}) = Cardinality(Drawn(k))
Complete == \A k \in Kinds : Able(k) => Cardinality(Drawn(k)) = 2 * Cardinality(Modes(k))
\* the sampling model has no say in it, and neither have later changes of the files
OnlyLoaded == [][hist'[Len(hist')].op # "load" => loaded' = loaded]_vars
Emit == (Len(hist) > 0 /\ hist[Len(hist)].op \in Ends) =>
        PrintT("@@" \o ToJson([A |-> d[1], N |-> d[2], id |-> id, hist |-> hist]))
=============================================================================
