----------------------------- MODULE IdentityOps -----------------------------
(* c.obs: sequence of [con |-> number of the content, id |-> number of the identity reported for it] *)
EXTENDS Naturals, Sequences
VerdictIdentities(c) ==
    IF \E i, j \in 1..Len(c.obs) : c.obs[i].con = c.obs[j].con /\ c.obs[i].id # c.obs[j].id THEN "equal contents have equal identities"
    ELSE IF \E i, j \in 1..Len(c.obs) : c.obs[i].con # c.obs[j].con /\ c.obs[i].id = c.obs[j].id THEN "different contents have different identities"
    ELSE ""
=============================================================================
