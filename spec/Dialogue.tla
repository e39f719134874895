------------------------------ MODULE Dialogue ------------------------------
(***************************************************************************)
(* The conversation about a number that is read off a list of orbital      *)
(* energies (P22): a suggestion, if there is one, is put to the user; when *)
(* it is declined, or there is none, the user is asked for numbers until   *)
(* one of them has been confirmed.  Replies that are not usable are asked  *)
(* for again.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Numbers, Bad,        \* usable and unusable replies to the question for a number
          Suggestion,          \* stands for the suggested number
          MaxReplies, TakeUnconfirmed
VARIABLES pc, value, confirmed, given, hist
vars == <<pc, value, confirmed, given, hist>>
Nothing == -9
Init == \/ pc = "confirm" /\ value = Suggestion /\ confirmed = Nothing /\ given = {Suggestion} /\ hist = <<[ask |-> "start", suggested |-> TRUE, reply |-> "", value |-> 0]>>
        \/ pc = "number" /\ value = Nothing /\ confirmed = Nothing /\ given = {} /\ hist = <<[ask |-> "start", suggested |-> FALSE, reply |-> "", value |-> 0]>>
Room == Len(hist) <= MaxReplies
Log(ask, reply) == hist' = Append(hist, [ask |-> ask, suggested |-> value = Suggestion, reply |-> reply, value |-> value])
Yes == pc = "confirm" /\ Room /\ pc' = "done" /\ confirmed' = value /\ Log("confirm", "yes") /\ UNCHANGED <<value, given>>
No == pc = "confirm" /\ Room /\ pc' = "number" /\ Log("confirm", "no") /\ UNCHANGED <<value, confirmed, given>>
Give(n) == /\ pc = "number" /\ Room /\ value' = n /\ given' = given \cup {n} /\ pc' = (IF TakeUnconfirmed THEN "done" ELSE "confirm")
           /\ hist' = Append(hist, [ask |-> "number", suggested |-> FALSE, reply |-> ToString(n), value |-> n]) /\ UNCHANGED confirmed
Unusable(b) == pc = "number" /\ Room /\ hist' = Append(hist, [ask |-> "number", suggested |-> FALSE, reply |-> b, value |-> 0]) /\ UNCHANGED <<pc, value, confirmed, given>>
Next == Yes \/ No \/ (\E n \in Numbers : Give(n)) \/ (\E b \in Bad : Unusable(b))
Spec == Init /\ [][Next]_vars
\* ---- properties
OnlyConfirmed == pc = "done" => confirmed = value /\ value \in given
NeverNothing == pc = "done" => value # Nothing
EndsWithYes == pc = "done" => hist[Len(hist)].reply = "yes"
Emit == pc = "done" => PrintT("@@" \o ToJson([value |-> value, hist |-> hist]))
=============================================================================
