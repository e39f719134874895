------------------------------ MODULE Molecule ------------------------------
(***************************************************************************)
(* The geometries of several molecules while their calculations run (P23). *)
(* Each has a file with Atoms coordinates (or atoms); some coordinates may *)
(* be fixed (internal coordinates only).  now[m][k] is the version of      *)
(* coordinate k: 0 is the one of the file, v the one of the v-th           *)
(* optimisation.  An output may list some of the coordinates only          *)
(* (internal), may be cut off, missing, or list too many atoms.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Molecules, Atoms, MaxSteps,
          Kinds,        \* the kinds of coordinates explored
          KeepPart      \* (wrong variant) an output that is cut off is used as far as it goes
VARIABLES kind, fixed, now, opt, hist
vars == <<kind, fixed, now, opt, hist>>
Coord == 1..Atoms
File == [k \in Coord |-> 0]
Init == /\ kind \in [Molecules -> Kinds]
        /\ fixed \in [Molecules -> SUBSET Coord]
        /\ \A m \in Molecules : fixed[m] # Coord /\ (kind[m] = "cartesian" => fixed[m] = {})
        /\ now = [m \in Molecules |-> File] /\ opt = 0 /\ hist = <<>>
Seq1(f) == [k \in Coord |-> f[k]]
Log(op, m, listed, result) == hist' = Append(hist, [op |-> op, m |-> m, listed |-> listed, version |-> opt', result |-> result, now |-> [x \in Molecules |-> Seq1(now'[x])]])
Room == Len(hist) < MaxSteps
\* an optimisation whose output is complete: exactly the listed coordinates change
Optimise(m, S) == /\ Room /\ S # {} /\ S \cap fixed[m] = {} /\ (kind[m] = "cartesian" => S = Coord)
                  /\ opt' = opt + 1
                  /\ now' = [now EXCEPT ![m] = [k \in Coord |-> IF k \in S THEN opt + 1 ELSE @[k]]]
                  /\ Log("optimise", m, S, "ok") /\ UNCHANGED <<kind, fixed>>
\* the output ends after some of the coordinates, has no list of coordinates, or is missing
Cut(m, S, how) == /\ Room /\ S \cap fixed[m] = {} /\ (how # "cut" => S = {})
                  /\ opt' = opt + 1
                  /\ now' = (IF KeepPart THEN [now EXCEPT ![m] = [k \in Coord |-> IF k \in S THEN opt + 1 ELSE @[k]]] ELSE now)
                  /\ Log(how, m, S, "refused") /\ UNCHANGED <<kind, fixed>>
TooMany(m) == /\ Room /\ kind[m] = "cartesian" /\ opt' = opt + 1 /\ now' = now
              /\ Log("toomany", m, Coord, "refused") /\ UNCHANGED <<kind, fixed>>
\* the molecule is read from its file once more
Read(m) == /\ Room /\ opt' = opt /\ now' = [now EXCEPT ![m] = File] /\ Log("read", m, {}, "ok") /\ UNCHANGED <<kind, fixed>>
Next == \E m \in Molecules : \/ \E S \in SUBSET Coord : Optimise(m, S) \/ (\E how \in {"cut", "nolist", "nofile"} : Cut(m, S, how))
                             \/ TooMany(m) \/ Read(m)
Spec == Init /\ [][Next]_vars
\* ---- properties
FixedStay == \A m \in Molecules, k \in Coord : k \in fixed[m] => now[m][k] = 0
Together == \A m \in Molecules : kind[m] = "cartesian" => \A j, k \in Coord : now[m][j] = now[m][k]
RefusedChangesNothing == \A i \in 2..Len(hist) : hist[i].result = "refused" => hist[i].now = hist[i - 1].now
OwnOnly == \A i \in 2..Len(hist) : \A x \in Molecules : x # hist[i].m => hist[i].now[x] = hist[i - 1].now[x]
Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson([kind |-> kind, fixed |-> fixed, hist |-> hist]))
=============================================================================
