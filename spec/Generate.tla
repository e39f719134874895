------------------------------- MODULE Generate -------------------------------
(***************************************************************************)
(* Models that are generated, copied, edited, stripped of arrays, stored   *)
(* and read back, and the answers to: are these two models the same, is    *)
(* this model symmetric in the surfaces / in the modes (P20).              *)
(*                                                                         *)
(* The contents of an array are a token (0: all zero) and the set of edits *)
(* that were applied to it.  The places of the edits are linearly          *)
(* independent, so two arrays agree exactly if token and edits agree.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,       \* subset of {"full", "diagonal"}
          Dims,        \* set of <<A, N>>
          Params,      \* numbers of parameter sets
          EditArrays, MaxModels, MaxSteps, Ops
VARIABLES ms, present, hist
vars == <<ms, present, hist>>
Arrays == {"E", "w", "G1", "G2", "G3", "G4"}
Generated == {"E", "w", "G1"}
Zero == [tok |-> <<"zero">>, ed |-> {}]

\* ---- where an entry may be changed
ModeParts(arr, N) ==
    CASE arr = "E" -> {"-"}
      [] arr \in {"w", "G1"} -> IF N > 1 THEN {"first", "last"} ELSE {"first"}
      [] OTHER -> IF N > 1 THEN {"first", "last", "sym", "off"} ELSE {"first"}
SurfParts(kind, arr, A) ==
    IF arr = "w" THEN {"-"} ELSE IF kind = "diagonal" \/ A = 1 THEN {"d"} ELSE {"d", "both", "one"}

Init == ms = <<>> /\ present = <<>> /\ hist = <<>>
Room == Len(hist) < MaxSteps
Log(x) == hist' = Append(hist, x)
\* frequencies follow from the request alone, energies and linear terms are drawn anew
Gen(kind, d, p) ==
    /\ "gen" \in Ops /\ Room /\ Len(ms) < MaxModels
    /\ ms' = Append(ms, [kind |-> kind, A |-> d[1], N |-> d[2],
                c |-> [a \in Arrays |-> CASE a = "w" -> [tok |-> <<"w", d[2], p>>, ed |-> {}]
                                          [] a \in {"E", "G1"} -> [tok |-> <<a, Len(hist) + 1>>, ed |-> {}]
                                          [] OTHER -> Zero]])
    /\ present' = Append(present, Arrays)
    /\ Log([op |-> "gen", kind |-> kind, A |-> d[1], N |-> d[2], p |-> p])
Copy(m) ==
    /\ "copy" \in Ops /\ Room /\ Len(ms) < MaxModels
    /\ ms' = Append(ms, ms[m]) /\ present' = Append(present, present[m])
    /\ Log([op |-> "copy", m |-> m])
\* saved and read back: all zero arrays become absent, except the energies
Store(m) ==
    /\ "store" \in Ops /\ Room /\ Len(ms) < MaxModels
    /\ ms' = Append(ms, ms[m])
    /\ present' = Append(present, {"E"} \union {a \in Arrays : ms[m].c[a] # Zero})
    /\ Log([op |-> "store", m |-> m])
Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \union {x}
Edit(m, arr, mp, sp) ==
    /\ "edit" \in Ops /\ Room
    /\ mp \in ModeParts(arr, ms[m].N) /\ sp \in SurfParts(ms[m].kind, arr, ms[m].A)
    /\ ms' = [ms EXCEPT ![m].c[arr].ed = Toggle(@, <<mp, sp>>)]
    /\ present' = [present EXCEPT ![m] = @ \union {arr}]
    /\ Log([op |-> "edit", m |-> m, arr |-> arr, mp |-> mp, sp |-> sp])
Wipe(m, arr) ==        \* set to zero
    /\ "wipe" \in Ops /\ Room /\ arr \in present[m]
    /\ ms' = [ms EXCEPT ![m].c[arr] = Zero] /\ UNCHANGED present
    /\ Log([op |-> "wipe", m |-> m, arr |-> arr])
Drop(m, arr) ==        \* leave out
    /\ "drop" \in Ops /\ Room /\ arr \in present[m]
    /\ ms' = [ms EXCEPT ![m].c[arr] = Zero] /\ present' = [present EXCEPT ![m] = @ \ {arr}]
    /\ Log([op |-> "drop", m |-> m, arr |-> arr])
Next == \/ \E k \in Kinds, d \in Dims, p \in Params : Gen(k, d, p)
        \/ \E m \in 1..Len(ms) :
              \/ Copy(m) \/ Store(m)
              \/ \E a \in EditArrays : \/ \E mp \in ModeParts(a, ms[m].N), sp \in SurfParts(ms[m].kind, a, ms[m].A) : Edit(m, a, mp, sp)
                                       \/ Wipe(m, a) \/ Drop(m, a)
Spec == Init /\ [][Next]_vars

\* ---- the answers
Same(m, n) == ms[m] = ms[n]
Places(m, arrs) == UNION {ms[m].c[a].ed : a \in arrs}
InSurfaces(m) == \A pl \in Places(m, Arrays) : pl[2] # "one"
\* cubic terms have no agreed order of their modes: nothing is said about a model in which only those are lopsided
InModes(m) == IF \E pl \in Places(m, {"G2", "G4"}) : pl[1] = "off" THEN "no"
              ELSE IF \E pl \in Places(m, {"G3"}) : pl[1] = "off" THEN "open" ELSE "yes"

\* ---- properties of the answers
TypeOK == /\ Len(ms) = Len(present) /\ \A m \in 1..Len(ms) : present[m] \subseteq Arrays
          /\ \A m \in 1..Len(ms) : \A a \in Arrays \ present[m] : ms[m].c[a] = Zero
Equivalence == \A m, n \in 1..Len(ms) : /\ Same(m, m) /\ (Same(m, n) => Same(n, m))
                                        /\ \A k \in 1..Len(ms) : Same(m, n) /\ Same(n, k) => Same(m, k)
\* the same models have the same symmetries; a model as it was generated has all of them
SameSymmetry == \A m, n \in 1..Len(ms) : Same(m, n) => InSurfaces(m) = InSurfaces(n) /\ InModes(m) = InModes(n)
FreshSymmetric == \A m \in 1..Len(ms) : Places(m, Arrays) = {} => InSurfaces(m) /\ InModes(m) = "yes"
\* an edit (or a change of what is present) shows in no other model, and leaving out zeros shows nowhere
Isolated == [][\A m \in 1..Len(ms) : ms'[m] # ms[m] => hist'[Len(hist')].op \in {"edit", "wipe", "drop"} /\ hist'[Len(hist')].m = m]_vars
Emit == (Len(hist) = MaxSteps /\ Len(ms) > 0) =>
    PrintT("@@" \o ToJson([hist |-> hist, same |-> {mn \in (1..Len(ms)) \X (1..Len(ms)) : Same(mn[1], mn[2])},
                           kind |-> [m \in 1..Len(ms) |-> ms[m].kind], present |-> present,
                           surf |-> [m \in 1..Len(ms) |-> InSurfaces(m)], modes |-> [m \in 1..Len(ms) |-> InModes(m)]]))
=============================================================================
