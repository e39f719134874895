----------------------------- MODULE OpFileOps -----------------------------
(***************************************************************************)
(* What the parameter section of an operator file means (P13).  A line is  *)
(* a record [k, a, b, i, j, v]: kind of coefficient, surfaces a <= b,      *)
(* modes, value in 1e-6 eV.                                                *)
(*   w  frequency of mode i          EH energy of surface a                *)
(*   C1 q_i    C2 q_i q_j    C3 q_i^3   B3 q_i q_j^2                       *)
(*   C4 q_i^4  B4 q_i q_j^3  A4 q_i^2 q_j^2                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"w", "EH", "C1", "C2", "C3", "B3", "C4", "B4", "A4"}
L(k, a, b, i, j) == [k |-> k, a |-> a, b |-> b, i |-> i, j |-> j]
Slots(A, N) ==
    LET s == {<<a, b>> \in (1..A) \X (1..A) : a <= b}
    IN     {L("w", 0, 0, i, 0) : i \in 1..N} \cup {L("EH", a, a, 0, 0) : a \in 1..A}
      \cup {L(k, p[1], p[2], i, 0) : k \in {"C1", "C3", "C4"}, p \in s, i \in 1..N}
      \cup {l \in {L("C2", p[1], p[2], i, j) : p \in s, i \in 1..N, j \in 1..N} : l.j <= l.i}
      \cup {l \in {L(k, p[1], p[2], i, j) : k \in {"B3", "B4"}, p \in s, i \in 1..N, j \in 1..N} : l.i # l.j}
      \cup {l \in {L("A4", p[1], p[2], i, j) : p \in s, i \in 1..N, j \in 1..N} : l.i < l.j}
Mandatory == {"w", "EH"}
\* the array entries one line stands for
Both(arr, modes, l) == {<<arr, modes, <<l.a, l.b>>, l.v>>, <<arr, modes, <<l.b, l.a>>, l.v>>}
Entries(l) ==
    CASE l.k = "w"  -> {<<"w", <<l.i>>, <<>>, l.v>>}
      [] l.k = "EH" -> Both("E", <<>>, l)
      [] l.k = "C1" -> Both("G1", <<l.i>>, l)
      [] l.k = "C2" -> Both("G2", <<l.i, l.j>>, l) \cup Both("G2", <<l.j, l.i>>, l)
      [] l.k = "C3" -> Both("G3", <<l.i, l.i, l.i>>, l)
      [] l.k = "B3" -> Both("G3", <<l.i, l.j, l.j>>, l)
      [] l.k = "C4" -> Both("G4", <<l.i, l.i, l.i, l.i>>, l)
      [] l.k = "B4" -> Both("G4", <<l.i, l.j, l.j, l.j>>, l)
      [] OTHER      -> Both("G4", <<l.i, l.i, l.j, l.j>>, l)
Expected(lines) == UNION {{e \in Entries(lines[x]) : e[4] # 0} : x \in 1..Len(lines)}
Range(s) == {s[i] : i \in 1..Len(s)}
\* c: lines, A, N, refusal (1: the file is not well formed), raised, gotA, gotN, entries (the nonzero ones of the model), bad (entries that are no multiples of 1e-6)
VerdictRead(c) ==
    IF c.raised = 1 THEN (IF c.refusal = 1 THEN "" ELSE "a well formed file is read")
    ELSE IF c.refusal = 2 THEN "a file with unusable lines is refused"
    ELSE IF c.gotA # c.A \/ c.gotN # c.N THEN "number of surfaces and modes"
    ELSE IF c.bad # 0 THEN "values of the file are kept"
    ELSE LET have == Range(c.entries)
             want == Expected(c.lines)
         IN  IF \E e \in want : e \notin have /\ ~ \E f \in have : f[1] = e[1] /\ f[2] = e[2] /\ f[3] = e[3] THEN "every coefficient of the file is in the model"
             ELSE IF \E e \in want : e \notin have THEN "every coefficient has the value of the file"
             ELSE IF have # want THEN "nothing but the coefficients of the file is in the model"
             ELSE ""
=============================================================================
