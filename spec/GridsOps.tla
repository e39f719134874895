------------------------------- MODULE GridsOps -------------------------------
(* One drawn grid (P21): entry, image and annotations in units of 1e-4 eV. *)
EXTENDS Naturals, Integers, Sequences
SignOf(x) == IF x > 0 THEN "+" ELSE IF x < 0 THEN "-" ELSE "0"
\* [A, N, id, refused, entry[a][b], image[a][b], notes = sequence of <<x, y, text>> (from 0), title, modes, single]
VerdictGrid(c) ==
    IF ~c.single THEN "a grid is not drawn as one image"
    ELSE IF c.image # c.entry THEN "the colours are not those of the entries"
    ELSE IF Len(c.notes) # c.A * c.A THEN "number of signs"
    ELSE IF \E a, b \in 1..c.A : Len(SelectSeq(c.notes, LAMBDA n : n[1] = b - 1 /\ n[2] = a - 1)) # 1 THEN "a cell without its sign"
    ELSE IF \E k \in 1..Len(c.notes) : c.notes[k][3] # SignOf(c.entry[c.notes[k][2] + 1][c.notes[k][1] + 1]) THEN "signs of the entries"
    ELSE IF c.titled # <<c.id, c.A, c.N>> THEN "the heading names another data set or other dimensions"
    ELSE IF c.titlemodes # c.modes THEN "the heading names other modes"
    ELSE ""
=============================================================================
