------------------------------ MODULE BlocksOps ------------------------------
(* judging a recorded job: which sample was requested when, and which path the stored values of a position come from *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Flat(s) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, s)
Permutes(s, X) == Len(s) = X /\ {s[i] : i \in 1..Len(s)} = 1..X
\* c.X samples in blocks of c.B; c.asked: the samples requested, block by block;
\* c.at[q]: for each quantity q the paths its positions hold (0: none, -1: not a number); c.saved: number of samples reported
VerdictJob(c) ==
    IF ~ Permutes(Flat(c.asked), c.X) THEN "every sample is requested exactly once"
    ELSE IF \E q \in DOMAIN c.at : Len(c.at[q]) # c.X THEN "one value of every quantity per sample"
    ELSE IF \E q \in DOMAIN c.at : \E i \in 1..c.X : c.at[q][i] = -1 THEN "every value is a number"
    ELSE IF \E q \in DOMAIN c.at : \E i \in 1..c.X : c.at[q][i] # i THEN "every position holds the values of its own sample"
    ELSE IF c.saved # c.X THEN "number of samples saved" ELSE ""
=============================================================================
