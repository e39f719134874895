----------------------------- MODULE FakeCoupled -----------------------------
(***************************************************************************)
(* Life cycle of the artificially coupled model (P12).                     *)
(*                                                                         *)
(* Files: the coupled model, the backup of the model it was made from, the *)
(* transformation matrix.  A model is the sequence <<base, u1, u2, ...>>:  *)
(* base model `base`, transformed by u1, then by u2, ...  A transformation *)
(* goes through explicit phases so that a failure may hit between (or in)  *)
(* any two file writes; a file hit by the failure is "torn".               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
CONSTANTS Dims,        \* set of <<A, N>>
          Mats,        \* matrix identifiers (1..3 explicit ones)
          Tunings,     \* tuning parameters in percent, used when no matrix is given
          BadArgs,     \* kinds of unusable arguments
          MaxSteps, AllowFaults, BaseKinds
VARIABLES dims, cur, orig, mat, pc, pre, u, asym, hist
vars == <<dims, cur, orig, mat, pc, pre, u, asym, hist>>

Torn == <<"torn">>
None == <<>>
Init == /\ dims \in Dims /\ cur = <<"base0">> /\ orig = None /\ mat = "none"
        /\ pc = "idle" /\ pre = None /\ u = "none" /\ asym = FALSE
        /\ hist = <<[op |-> "new", base |-> "base0", kind |-> "sym"]>>
Room == pc = "idle" /\ Len(hist) < MaxSteps /\ cur # Torn

\* a new coupled model is put in place (by the caller, outside of the transformation)
New(kind) ==
    /\ Room
    /\ LET b == "base" \o ToString(Len(hist)) IN
       /\ cur' = <<b>> /\ asym' = (kind # "sym")
       /\ hist' = Append(hist, [op |-> "new", base |-> b, kind |-> kind])
    /\ UNCHANGED <<dims, orig, mat, pc, pre, u>>

Begin(m, entry) ==
    /\ Room /\ ~asym
    /\ pc' = "backup" /\ pre' = cur /\ u' = m
    /\ hist' = Append(hist, entry)
    /\ UNCHANGED <<dims, cur, orig, mat, asym>>
Given(k) == Begin("M" \o ToString(k), [op |-> "given", mat |-> "M" \o ToString(k)])
Auto(t) == /\ (dims[1] > 1 \/ t = 0)      \* there is no one by one matrix other than the identity
           /\ Begin("T" \o ToString(t), [op |-> "auto", t |-> t, mat |-> "T" \o ToString(t)])
Reuse == mat # "none" /\ mat # "torn" /\ Begin(mat, [op |-> "reuse", mat |-> mat])

Backup == pc = "backup" /\ orig' = pre /\ pc' = "model" /\ UNCHANGED <<dims, cur, mat, pre, u, asym, hist>>
Model  == pc = "model" /\ cur' = Append(pre, u) /\ pc' = "matrix" /\ UNCHANGED <<dims, orig, mat, pre, u, asym, hist>>
Matrix == pc = "matrix" /\ mat' = u /\ pc' = "idle" /\ UNCHANGED <<dims, cur, orig, pre, u, asym, hist>>

Refused(kind) ==
    /\ Room
    /\ kind = "asym" => asym
    /\ kind = "reuse-nothing" => mat = "none"
    /\ hist' = Append(hist, [op |-> "refused", kind |-> kind])
    /\ UNCHANGED <<dims, cur, orig, mat, pc, pre, u, asym>>

\* the write of the current phase fails half way
Fault ==
    /\ AllowFaults /\ pc # "idle"
    /\ \/ pc = "backup" /\ orig' = Torn /\ UNCHANGED <<cur, mat>>
       \/ pc = "model"  /\ cur' = Torn /\ UNCHANGED <<orig, mat>>
       \/ pc = "matrix" /\ mat' = "torn" /\ UNCHANGED <<cur, orig>>
    /\ hist' = [hist EXCEPT ![Len(hist)] = @ @@ [fault |-> CASE pc = "backup" -> 1 [] pc = "model" -> 2 [] OTHER -> 3]]
    /\ pc' = "dead"
    /\ UNCHANGED <<dims, pre, u, asym>>

Next == \/ \E k \in BaseKinds : New(k)
        \/ \E k \in Mats : Given(k)
        \/ \E t \in Tunings : Auto(t)
        \/ Reuse \/ Backup \/ Model \/ Matrix \/ Fault
        \/ \E k \in BadArgs : Refused(k)

\* ---- properties
\* the model that existed before the transformation can be recovered at every moment
Recoverable == pc # "idle" => pre \in {cur, orig}
\* after a completed transformation the three files belong together
Consistent == (pc = "idle" /\ Len(cur) > 1) => (orig = SubSeq(cur, 1, Len(cur) - 1) /\ mat = cur[Len(cur)])
NeverRotatesAsymmetric == asym => Len(cur) = 1
View == <<dims, cur, orig, mat, pc, pre, u, asym, Len(hist)>>
Emit == ((pc = "idle" /\ Len(hist) = MaxSteps) \/ pc = "dead") => PrintT("@@" \o ToJson([dims |-> dims, hist |-> hist]))
=============================================================================
