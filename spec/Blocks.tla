------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* A job evaluates its samples block by block (P02).  One object can run   *)
(* several times; every run evaluates its own paths.                       *)
(***************************************************************************)
EXTENDS BlocksOps, TLC, Json
CONSTANTS Xs, MaxRuns, Flavours
VARIABLES X, B, flavour, run, blk, asked, out, saved
vars == <<X, B, flavour, run, blk, asked, out, saved>>
Divides(b, x) == x % b = 0
None == [i \in 1..X |-> 0]
Init == /\ X \in Xs /\ B \in {b \in 1..X : Divides(b, X)} /\ flavour \in Flavours
        /\ run = 1 /\ blk = 0 /\ asked = <<>> /\ saved = <<>> /\ out = [i \in 1..X |-> 0]
View(b) == [i \in 1..B |-> b * B + i]
Block == /\ blk * B < X
         /\ asked' = Append(asked, View(blk))
         /\ out' = [i \in 1..X |-> IF i > blk * B /\ i <= (blk + 1) * B THEN i ELSE out[i]]
         /\ blk' = blk + 1 /\ UNCHANGED <<X, B, flavour, run, saved>>
Save == /\ blk * B = X /\ Len(saved) < run
        /\ saved' = Append(saved, [X |-> X, B |-> B, asked |-> asked, at |-> [g |-> out, gp |-> out, gm |-> out], saved |-> X])
        /\ UNCHANGED <<X, B, flavour, run, blk, asked, out>>
Again == /\ Len(saved) = run /\ run < MaxRuns
         /\ run' = run + 1 /\ blk' = 0 /\ asked' = <<>> /\ out' = None
         /\ UNCHANGED <<X, B, flavour, saved>>
Next == Block \/ Save \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- properties of the specification
SavedJobsAreComplete == \A k \in 1..Len(saved) : VerdictJob(saved[k]) = ""
NeverTwice == LET f == Flat(asked) IN \A i, j \in 1..Len(f) : i # j => f[i] # f[j]
Finishes == <>(Len(saved) = MaxRuns)
Emit == (Len(saved) = MaxRuns) => PrintT("@@" \o ToJson([X |-> X, B |-> B, flavour |-> flavour, runs |-> MaxRuns]))
=============================================================================
