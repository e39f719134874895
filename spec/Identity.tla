------------------------------- MODULE Identity -------------------------------
(* The identity of a model is a function of its contents, and an injective one (P05).                          *)
(* A content is a flavour and an assignment of small numbers to the entries of its arrays; which entries exist *)
(* follows from the flavour and the dimensions.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims, Values, Arrays, MaxNonzero, All
VARIABLES c, left
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Order(a) == CASE a = "E" -> 0 [] a = "G1" -> 1 [] a = "G2" -> 2 [] a = "G3" -> 3 [] a = "G4" -> 4
\* diagonal flavours
Size(d, a) == IF a = "w" THEN d[2] ELSE d[1] * Pow(d[2], Order(a))
\* all entries, or the first, some in the middle and the last ones of large arrays
Entries(d, a) == LET n == Size(d, a) IN IF All THEN 1..n ELSE {1, n \div 3 + 1, n \div 2 + 1, n}
Slots(d) == UNION {{<<a, i>> : i \in Entries(d, a)} : a \in Arrays}
Init == /\ \E d \in Dims : c = [d |-> d, v |-> [s \in Slots(d) |-> 0]]
        /\ left = MaxNonzero
\* edit one entry
Edit == /\ left > 0 /\ left' = left - 1
        /\ \E s \in DOMAIN c.v, x \in Values : x # c.v[s] /\ c' = [c EXCEPT !.v[s] = x]
Next == Edit
Spec == Init /\ [][Next]_<<c, left>>
View == c
\* every edit changes the content (so it has to change the identity)
EditsShow == [][c' # c]_<<c, left>>
Entry(s) == [a |-> s[1], i |-> s[2], x |-> c.v[s]]
Emit == PrintT("@@" \o ToJson([d |-> c.d, v |-> {Entry(s) : s \in {s \in DOMAIN c.v : c.v[s] # 0}}]))
=============================================================================
