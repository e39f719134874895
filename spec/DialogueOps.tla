---------------------------- MODULE DialogueOps ----------------------------
(* one conversation (P22)                                                  *)
(* c.kind "states" or "orbitals"; c.energies: the list in units of 1/8 eV  *)
(*   (negative), c.usable (0/1): can it be read, c.drop: orbitals left out   *)
(* c.script: the prepared replies [ask, suggested, reply, value]; value of *)
(*   a suggestion: -7; c.used: how many of them were asked for, c.more     *)
(*   (0/1): more than prepared were asked for                              *)
(* c.shown: for each reply the numbers in the question it answers          *)
(* c.result: the number in the end (-2: none), c.text: how it is written   *)
(* c.listed: the energies shown to the user                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mag(c, i) == - c.energies[i]
\* the ratio of neighbours i, i + 1 is larger than that of j, j + 1
Larger(c, i, j) == Mag(c, i) * Mag(c, j + 1) > Mag(c, j) * Mag(c, i + 1)
First(c) == CHOOSE i \in 1..(Len(c.energies) - 1) :
                (\A j \in 1..(Len(c.energies) - 1) : ~ Larger(c, j, i)) /\ (\A j \in 1..(i - 1) : Larger(c, i, j))
Proposed(c) == IF c.kind = "orbitals" THEN First(c) ELSE c.result
Final(c) == c.script[Len(c.script)].value
Keyword(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN "DROPMO=1" ELSE "DROPMO=1-" \o ToString(n)
Shows(c, k, n) == \E i \in 1..Len(c.shown[k]) : c.shown[k][i] = n
VerdictDialogue(c) ==
    IF c.result = -2 THEN "the conversation ends with the confirmed number"
    ELSE IF c.more = 1 \/ c.used # Len(c.script) THEN "every reply is asked for, and no other"
    ELSE IF Final(c) # -7 /\ c.result # Final(c) THEN "the number that is used is the confirmed one"
    ELSE IF Final(c) = -7 /\ ~ Shows(c, Len(c.script), c.result) THEN "the suggestion that is used is the one put to the user"
    ELSE IF Final(c) = -7 /\ ~ (c.result \in 1..(Len(c.energies) - c.drop)) THEN "a suggestion does not count orbitals that are left out"
    ELSE IF Final(c) = -7 /\ c.result # Proposed(c) THEN "the suggestion leaves out the orbitals below the largest gap"
    ELSE IF \E k \in 1..Len(c.script) : c.script[k].ask = "confirm" /\ c.script[k].value # -7 /\ ~ Shows(c, k, c.script[k].value) THEN "the number is put to the user before it is used"
    ELSE IF c.usable = 1 /\ c.listed # c.energies THEN "the energies shown are those of the output"
    ELSE IF c.kind = "orbitals" /\ c.text # Keyword(c.result) THEN "how the orbitals are left out"
    ELSE ""
=============================================================================
