-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* An object that knows where the files of (data set, sampling model) live *)
(* is created and re-pointed to other sampling models; folders appear on   *)
(* disk.  The working folder of the process may change in between.         *)
(***************************************************************************)
EXTENDS LayoutOps, Json, FiniteSetsExt, SequencesExt
CONSTANTS Removals, Ds, Rs, MaxSteps, Ps, Ts, Js
VARIABLES obj,    \* [D, R] of the object
          disk,   \* folders that must exist
          hist
vars == <<obj, disk, hist>>
AllDirs(D, R) == {Dirs(D, R)[k] : k \in DOMAIN Dirs(D, R)}
Init == \E D \in Ds, R \in Rs, mk \in BOOLEAN :
          /\ obj = [D |-> D, R |-> R]
          /\ disk = IF mk THEN AllDirs(D, R) ELSE {}
          /\ hist = <<[op |-> "new", D |-> D, R |-> R, mk |-> mk]>>
Room == Len(hist) < MaxSteps
ChangeRho(R) == /\ Room /\ obj' = [obj EXCEPT !.R = R]
                /\ disk' = disk \union SubDirs(obj.D, R)
                /\ hist' = Append(hist, [op |-> "change", R |-> R])
MakeRho(R) == /\ Room /\ disk' = disk \union SubDirs(obj.D, R) /\ UNCHANGED obj
              /\ hist' = Append(hist, [op |-> "make", R |-> R])
Make == /\ Room /\ disk' = disk \union AllDirs(obj.D, obj.R) /\ UNCHANGED obj
        /\ hist' = Append(hist, [op |-> "makeall"])
\* the folders of another data set (with its first sampling model) are made sure of
Verify(D) == /\ Room /\ disk' = disk \union AllDirs(D, 0) /\ UNCHANGED obj
             /\ hist' = Append(hist, [op |-> "verify", D |-> D])
Chdir == /\ Room /\ hist[Len(hist)].op # "chdir" /\ UNCHANGED <<obj, disk>>
         /\ hist' = Append(hist, [op |-> "chdir"])
\* files appear at the places the object points to
Fill == /\ Room /\ hist[Len(hist)].op # "fill" /\ UNCHANGED <<obj, disk>>
        /\ hist' = Append(hist, [op |-> "fill"])
\* a folder disappears
Leaves == UNION {SubDirs(obj.D, R) : R \in Rs} \union {Dirs(obj.D, 0)[k] : k \in {"path_es", "path_vib_params", "path_vib_results", "path_vib_output", "path_vib_plots"}}
Vanish(d) == /\ Room /\ Removals /\ d \in disk /\ disk' = disk \ {d} /\ UNCHANGED obj
             /\ hist' = Append(hist, [op |-> "remove", d |-> d])
Next == (\E d \in Leaves : Vanish(d)) \/ (\E R \in Rs : ChangeRho(R) \/ MakeRho(R)) \/ (\E D \in Ds : Verify(D)) \/ Make \/ Chdir \/ Fill

\* ---- properties
\* two different things never share a path
Roles == {"pimc", "thermo", "trainin", "traing", "trainrho"}
Name(r, P, T, J) == CASE r = "pimc" -> Pimc(P, T, J) [] r = "thermo" -> Thermo(P, T, J) [] r = "trainin" -> TrainIn(P, T, J)
                      [] r = "traing" -> TrainG(P, T, J) [] OTHER -> TrainRho(P, T, J)
Injective == Len(hist) = 1 =>
    /\ Cardinality({Name(x[1], x[2], x[3], x[4]) : x \in Roles \X Ps \X Ts \X Js}) = Cardinality(Roles) * Cardinality(Ps) * Cardinality(Ts) * Cardinality(Js)
    /\ Cardinality({Output(x[1], x[2], x[3], x[4], x[5]) : x \in Ds \X Rs \X Ps \X Ts \X Js})
         = Cardinality(Ds) * Cardinality(Rs) * Cardinality(Ps) * Cardinality(Ts) * Cardinality(Js)
    /\ Cardinality({Trotter(x[1], x[2]) : x \in Ps \X Js}) = Cardinality(Ps) * Cardinality(Js)
    /\ LET E == Everything(obj.D, obj.R) IN \A a, b \in DOMAIN E : a # b => E[a] # E[b]
    \* sampling models do not share anything that depends on them
    /\ \A R1, R2 \in Rs : R1 # R2 => SubDirs(obj.D, R1) \intersect SubDirs(obj.D, R2) = {}
ObjKnown == obj.D \in Ds /\ obj.R \in Rs
Emit == Len(hist) = MaxSteps =>
          PrintT("@@" \o ToJson([hist |-> hist, obj |-> obj, paths |-> Everything(obj.D, obj.R), disk |-> disk]))

=============================================================================
