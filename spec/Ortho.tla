-------------------------------- MODULE Ortho --------------------------------
(* requests for matrices: walks that increase the tuning parameter for one order,  *)
(* and small abstract tables on which the selection rule is explored completely    *)
EXTENDS OrthoOps, TLC, Json
CONSTANTS Orders, Ts, Len0, MaxY, Den
VARIABLES order, walk, tab, num, mode
vars == <<order, walk, tab, num, mode>>
Init == \/ mode = "walk" /\ order \in Orders /\ walk = <<>> /\ tab = <<0>> /\ num = 0
        \/ mode = "tab" /\ order = 0 /\ walk = <<>> /\ tab = <<0>> /\ num \in 0..Den
Step(t) == /\ mode = "walk" /\ Len(walk) < Len0
           /\ (walk # <<>> => t > walk[Len(walk)])
           /\ walk' = Append(walk, t) /\ UNCHANGED <<order, tab, num, mode>>
Grow(y) == /\ mode = "tab" /\ Len(tab) < 4 /\ y > tab[Len(tab)]
           /\ tab' = Append(tab, y) /\ UNCHANGED <<order, walk, num, mode>>
Next == (\E t \in Ts : Step(t)) \/ (\E y \in 1..MaxY : Grow(y))

\* the selection rule itself: never beyond the wanted distance, monotone in t, exact at the ends
PickSound == mode = "tab" =>
    LET i == Pick(tab, num, Den) IN
      /\ tab[i] * Den <= tab[Len(tab)] * num
      /\ (i < Len(tab) => tab[i + 1] * Den > tab[Len(tab)] * num)
      /\ (num = 0 => i = 1) /\ (num = Den => i = Len(tab))
      /\ \A m \in 0..num : Pick(tab, m, Den) <= i
Emit == /\ (mode = "walk" /\ Len(walk) = Len0) => PrintT("@@" \o ToJson([order |-> order, walk |-> walk]))
        /\ (mode = "tab" /\ Len(tab) >= 2) => PrintT("@@" \o ToJson([tab |-> tab, num |-> num, den |-> Den]))
=============================================================================
