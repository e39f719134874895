------------------------------- MODULE OpFile -------------------------------
(***************************************************************************)
(* Operator files of an electronic structure program (P13): files are      *)
(* written (by that program), read, and converted into the stored coupled  *)
(* model.  Reading depends on the content of the file only, not on what    *)
(* was read before; a file that cannot be read leaves the model as it was. *)
(***************************************************************************)
EXTENDS OpFileOps, Json, Randomization
CONSTANTS Dims, Families, MaxOps, Files, Sparse
VARIABLES file, model, hist
vars == <<file, model, hist>>
None == [A |-> 0, N |-> 0, lines |-> {}, broken |-> ""]
Base(A, N) == {l \in Slots(A, N) : l.k \in Mandatory}
C(A, N, lines, broken) == [A |-> A, N |-> N, lines |-> lines \cup Base(A, N), broken |-> broken]
Contents(d, f) ==
    LET A == d[1]
        N == d[2]
        S == Slots(A, N)
    IN  CASE f = "all"    -> {C(A, N, S, "")}
          [] f = "none"   -> {C(A, N, {}, "")}
          [] f = "single" -> {C(A, N, {l}, "") : l \in S \ Base(A, N)}
          [] f = "kind"   -> {C(A, N, {l \in S : l.k = k}, "") : k \in Kinds \ Mandatory}
          [] f = "without" -> {C(A, N, {l \in S : l.k # k}, "") : k \in Kinds \ Mandatory}
          [] f = "short"  -> {C(A, N, {l \in S : l.k \in Mandatory \cup {"C1"} \cup k}, "short") : k \in {{}, {"C2"}, {"C2", "C3"}, {"C2", "C3", "C4"}, {"C2", "C3", "C4", "B3"}}}
          [] f = "broken" -> {C(A, N, S, b) : b \in {"unit", "wunit", "order", "range", "name", "nofreq", "noenergy"}}
          [] OTHER        -> {C(A, N, RandomSubset((Cardinality(S) * k) \div 4, S), "") : k \in Sparse}
Init == file = [f \in Files |-> None] /\ model = None /\ hist = <<>>
Room == Len(hist) < MaxOps
Write(f) == /\ Room /\ \E d \in Dims, fam \in Families : \E c \in Contents(d, fam) :
                 /\ file' = [file EXCEPT ![f] = c] /\ hist' = Append(hist, [op |-> "write", f |-> f, c |-> c])
            /\ UNCHANGED model
Read(f) == /\ Room /\ file[f] # None /\ hist' = Append(hist, [op |-> "read", f |-> f]) /\ UNCHANGED <<file, model>>
Convert(f) == /\ Room /\ file[f] # None
              /\ model' = IF file[f].broken \in {"", "short"} THEN file[f] ELSE model
              /\ hist' = Append(hist, [op |-> "convert", f |-> f]) /\ UNCHANGED file
Next == \E f \in Files : Write(f) \/ Read(f) \/ Convert(f)
Spec == Init /\ [][Next]_vars
ModelIsReadable == model = None \/ model.broken \in {"", "short"}
\* every line stands for entries of its own: files never contradict themselves
LinesAreIndependent == \A f \in Files : LET s == file[f].lines IN
    \A x \in s, y \in s : x # y => \A e \in Entries([v |-> 1] @@ x), g \in Entries([v |-> 1] @@ y) : e # g
Emit == (Len(hist) = MaxOps /\ hist[Len(hist)].op # "write") => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
