------------------------------ MODULE Reference ------------------------------
(***************************************************************************)
(* A file with the exact values of a sampling model that may be incomplete *)
(* (P18): which temperatures it has, and one value lacking at one of them. *)
(* Says which analyses are possible and which outputs may exist.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ts,        \* temperatures that have results
          Others     \* temperatures without results
VARIABLES has, lackT, lackK, method, out
vars == <<has, lackT, lackK, method, out>>
Keys == {"Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta"}
Methods == {"basic", "alpha", "jbasic", "jalpha"}
Needed(m) == IF m \in {"alpha", "jalpha"} THEN Keys ELSE {"E_sampling", "Cv_sampling"}
Complete(t, m) == t \in has /\ ~(t = lackT /\ lackK \in Needed(m))
Init == /\ has \in SUBSET (Ts \union Others) /\ lackT \in has \union {0} /\ lackK \in Keys \union {"none"}
        /\ (lackT = 0) = (lackK = "none") /\ method \in Methods /\ out = "idle"
Analyse == out = "idle" /\ out' = (IF \A t \in Ts : Complete(t, method) THEN "done" ELSE "refused") /\ UNCHANGED <<has, lackT, lackK, method>>
Spec == Init /\ [][Analyse]_vars
\* an analysis that does not need the values that are lacking is possible, every other one is refused
DoneIsComplete == out = "done" => Ts \subseteq has
NotNeeded == (out = "refused" /\ Ts \subseteq has) => lackT \in Ts /\ lackK \in Needed(method)
\* a lacking value that this method has no use for may be insisted upon
Optional == lackT \in Ts /\ lackK \notin Needed(method)
Emit == out # "idle" => PrintT("@@" \o ToJson([has |-> has, lackT |-> lackT, lackK |-> lackK, method |-> method, out |-> out, optional |-> Optional,
                                               may |-> {t \in Ts : Complete(t, method)}]))
=============================================================================
