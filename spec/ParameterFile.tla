---------------------------- MODULE ParameterFile ----------------------------
(***************************************************************************)
(* Reading parameter files line by line (P23), for several calculations.   *)
(* A file is a sequence of items: "blank", "comment" (also comments that   *)
(* look like an entry) or an entry [name, value].  Names outside Known and *)
(* values outside Valid[name] make the file unusable.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files,      \* number of calculations, one file each
          MaxItems
Names == {"basis", "theory", "calculation", "gridVibron"}
Required == {"basis", "theory", "calculation"}
Valid == [basis |-> {"DZP", "TZ2P"}, theory |-> {"CCSD", "MBPT(2)"}, calculation |-> {"IP"}, gridVibron |-> {"4"}]
Wrong == [basis |-> {"STO-3G"}, theory |-> {"HF"}, calculation |-> {"XY"}, gridVibron |-> {"four"}]
Entries == {[name |-> n, value |-> v] : n \in Names, v \in UNION {Valid[n] : n \in Names} \cup UNION {Wrong[n] : n \in Names}}
Good == {e \in Entries : e.value \in Valid[e.name]}
Bad == {e \in Entries : e.value \in Wrong[e.name]} \cup {[name |-> "colour", value |-> "red"]}
Filler == {[name |-> "", value |-> v] : v \in {"blank", "spaces", "comment", "entry"}}      \* "entry": a comment with the name of a parameter
Default == [n \in Names |-> IF n = "gridVibron" THEN "3" ELSE "none"]
VARIABLES file, at, set, state, text
vars == <<file, at, set, state, text>>
\* file: the calculation being read; at: items read; text[f]: its items so far
Init == file = 1 /\ at = 0 /\ set = [f \in 1..Files |-> Default] /\ state = [f \in 1..Files |-> "new"] /\ text = [f \in 1..Files |-> <<>>]
Item(x) == /\ file <= Files /\ at < MaxItems /\ at' = at + 1 /\ text' = [text EXCEPT ![file] = Append(@, x)]
           /\ set' = (IF x \in Good /\ state[file] # "refused" THEN [set EXCEPT ![file][x.name] = x.value] ELSE set)
           /\ state' = (IF x.name = "colour" \/ (x.name = "gridVibron" /\ x \in Bad) THEN [state EXCEPT ![file] = "refused"]
                        ELSE IF x \in Bad THEN [state EXCEPT ![file] = IF @ = "refused" THEN @ ELSE "wrong" \o x.name]
                        ELSE state)
           /\ UNCHANGED file
\* the end of the file: everything that is required must have a valid value (of its last entry)
LastOf(f, n) == LET idx == {i \in 1..Len(text[f]) : text[f][i].name = n} IN
                IF idx = {} THEN "none" ELSE text[f][CHOOSE i \in idx : \A j \in idx : j <= i].value
EndFile == /\ file <= Files
           /\ state' = [state EXCEPT ![file] = IF @ = "refused" \/ \E n \in Required : LastOf(file, n) \notin Valid[n] THEN "refused" ELSE "ok"]
           /\ file' = file + 1 /\ at' = 0 /\ UNCHANGED <<set, text>>
Next == (\E x \in Good \cup Bad \cup Filler : Item(x)) \/ EndFile
Spec == Init /\ [][Next]_vars
\* ---- properties
Complete == \A f \in 1..Files : state[f] = "ok" => \A n \in Required : set[f][n] \in Valid[n]
ListedOnly == \A f \in 1..Files, n \in Names : state[f] = "ok" => set[f][n] = (IF LastOf(f, n) = "none" THEN Default[n] ELSE LastOf(f, n))
UntouchedBefore == \A f \in 1..Files : f > file => set[f] = Default
Emit == file = Files + 1 => PrintT("@@" \o ToJson([text |-> text, state |-> state, set |-> set]))
=============================================================================
