-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* Stored results of external calculations (P09).  Every kind of           *)
(* calculation has its own file per parameters; a file holds one entry per *)
(* temperature and the identities of the models they were calculated with. *)
(* Calculations can overlap; they can fail in several ways, and so can     *)
(* writing the file.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,        \* keys of files: <<"rho", R>>, <<"orig">>, <<"sos", B>>, <<"trotter", P, B>>
          Temps, Versions, MaxCalc, MaxSteps, MaxRunning, Outcomes
Failures == {"killed", "signal", "empty", "garbage", "cut", "partial", "full"}
VARIABLES vib, rho, running, file, n, hist
vars == <<vib, rho, running, file, n, hist>>
Rs == {k[2] : k \in {x \in Kinds : x[1] = "rho"}}
NoFile == [hv |-> 0, hr |-> 0, e |-> <<>>]
Init == /\ vib = 1 /\ rho = [r \in Rs |-> 1] /\ running = {} /\ n = 0
        /\ file = [k \in Kinds |-> NoFile] /\ hist = <<[op |-> "init"]>>
Room == Len(hist) <= MaxSteps
\* the identity of the sampling model only matters for the reference of that sampling model
Label(k) == [hv |-> vib, hr |-> IF k[1] = "rho" THEN rho[k[2]] ELSE 0]
EditVib == /\ Room /\ \E v \in Versions \ {vib} : vib' = v /\ hist' = Append(hist, [op |-> "editvib", v |-> v])
           /\ UNCHANGED <<rho, running, file, n>>
EditRho == /\ Room /\ \E r \in Rs : \E v \in Versions \ {rho[r]} : rho' = [rho EXCEPT ![r] = v] /\ hist' = Append(hist, [op |-> "editrho", r |-> r, v |-> v])
           /\ UNCHANGED <<vib, running, file, n>>
Start(k, t) ==
    /\ Room /\ n < MaxCalc /\ Cardinality(running) < MaxRunning
    /\ n' = n + 1
    /\ running' = running \cup {[id |-> n + 1, k |-> k, t |-> t, hv |-> Label(k).hv, hr |-> Label(k).hr]}
    /\ hist' = Append(hist, [op |-> "start", id |-> n + 1, k |-> k, t |-> t])
    /\ UNCHANGED <<vib, rho, file>>
Entry(e, t, id) == [x \in DOMAIN e \cup {t} |-> IF x = t THEN id ELSE e[x]]
Store(f, c) == IF f.hv = c.hv /\ f.hr = c.hr THEN [f EXCEPT !.e = Entry(@, c.t, c.id)]
               ELSE [hv |-> c.hv, hr |-> c.hr, e |-> Entry(<<>>, c.t, c.id)]
List(f) == [hv |-> f.hv, hr |-> f.hr, e |-> {<<t, f.e[t]>> : t \in DOMAIN f.e}]
Finish(c, o) ==
    /\ c \in running /\ running' = running \ {c}
    /\ file' = IF o \in Failures THEN file ELSE [file EXCEPT ![c.k] = Store(@, c)]
    /\ hist' = Append(hist, [op |-> "finish", id |-> c.id, k |-> c.k, o |-> o, after |-> List(file'[c.k])])
    /\ UNCHANGED <<vib, rho, n>>
Next == EditVib \/ EditRho \/ (\E k \in Kinds, t \in Temps : Start(k, t)) \/ (\E c \in running, o \in Outcomes : Finish(c, o))
Spec == Init /\ [][Next]_vars
\* ---- properties
Ended(id) == \E i \in 1..Len(hist) : hist[i].op = "finish" /\ hist[i].id = id
Outcome(id) == LET i == CHOOSE j \in 1..Len(hist) : hist[j].op = "finish" /\ hist[j].id = id IN hist[i].o
StartOf(id) == LET i == CHOOSE j \in 1..Len(hist) : hist[j].op = "start" /\ hist[j].id = id IN hist[i]
\* every entry is the output of a calculation of that kind and temperature that succeeded
EntriesAreResults == \A k \in Kinds : \A t \in DOMAIN file[k].e :
    LET id == file[k].e[t] IN Ended(id) /\ Outcome(id) \notin Failures /\ StartOf(id).k = k /\ StartOf(id).t = t
\* failing calculations and writes change nothing
FailuresChangeNothing == [][(\E c \in running : c \notin running' /\ hist'[Len(hist')].o \in Failures) => UNCHANGED file]_vars
\* entries of the same models are never lost
KeptForSameModels == [][\A k \in Kinds : (file'[k].hv = file[k].hv /\ file'[k].hr = file[k].hr) => DOMAIN file[k].e \subseteq DOMAIN file'[k].e]_vars
Emit == (running = {} /\ n > 0 /\ hist[Len(hist)].op = "finish") =>
    PrintT("@@" \o ToJson([hist |-> hist, files |-> {<<k, List(file[k])>> : k \in {x \in Kinds : file[x] # NoFile}}, vib |-> vib, rho |-> {<<r, rho[r]>> : r \in Rs}]))
=============================================================================
