------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The tables prepared for the coupling calculation and the test of the    *)
(* singles (P23).  A table is a sequence of lines; lines of kind "heff"    *)
(* belong to the final effective Hamiltonian, kept is what remains.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, Numbers, MaxStates
VARIABLES lines, kept, singles, accepted, nip
vars == <<lines, kept, singles, accepted, nip>>
Kinds == {"text", "empty", "heff", "inner"}      \* "inner": a line with the word in its middle
Marks(l) == l \in {"heff", "inner"}
Above == {3, 1}         \* the distance of the singles of a state from the cutoff, in units of 1/100
Below == {0, -1, -40}
Init == /\ lines = <<>> /\ kept = <<>> /\ singles = <<>> /\ accepted = TRUE /\ nip \in Numbers
Line(l) == /\ Len(lines) < MaxLines /\ singles = <<>> /\ lines' = Append(lines, l)
           /\ kept' = (IF kept # <<>> \/ Marks(l) THEN Append(kept, l) ELSE kept) /\ UNCHANGED <<singles, accepted, nip>>
State(s) == /\ Len(singles) < MaxStates /\ lines = <<>> /\ singles' = Append(singles, s) /\ accepted' = (accepted /\ s \in Above) /\ UNCHANGED <<lines, kept, nip>>
Next == (\E l \in Kinds : Line(l)) \/ (\E s \in Above \cup Below : State(s))
Spec == Init /\ [][Next]_vars
\* ---- properties
IsSuffix == \E n \in 0..Len(lines) : kept = SubSeq(lines, n + 1, Len(lines)) \/ kept = <<>>
FromFirst == kept # <<>> => Marks(kept[1]) /\ \A i \in 1..(Len(lines) - Len(kept)) : ~ Marks(lines[i])
All == accepted <=> \A i \in 1..Len(singles) : singles[i] > 0
Emit == (lines # <<>> \/ singles # <<>>) => PrintT("@@" \o ToJson([lines |-> lines, kept |-> kept, singles |-> singles, accepted |-> accepted, nip |-> nip]))
=============================================================================
