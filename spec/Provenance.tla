------------------------------ MODULE Provenance ------------------------------
(***************************************************************************)
(* Which results belong to which models (P05), and what an analysis        *)
(* produces (P18).                                                         *)
(*                                                                         *)
(* A data set has one coupled model and one sampling model per sampling id *)
(* R; both are files whose content may be replaced at any time (version    *)
(* numbers stand for contents, so a content can come back).  A job reads   *)
(* both models when it starts and writes its result file when it finishes; *)
(* the file is labelled with the identity of the contents it was           *)
(* calculated with.  An object (the user's handle) points to one sampling  *)
(* id and may carry identities; they are taken when asked for the first    *)
(* time, when forced, or after a switch of the sampling id dropped them.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Rs,        \* sampling ids
          Versions,  \* model contents
          Pairs,     \* <<beads, temperature in hundredths>>
          Js,        \* job numbers
          Xs,        \* numbers of samples per job
          MaxSteps, Ops,   \* allowed operations
          Ends,      \* operations with which an emitted history must end
          MaxJobs    \* jobs that may be running at once
VARIABLES vib, rho, obj, store, jobs, ana, thermo, hist, n
vars == <<vib, rho, obj, store, jobs, ana, thermo, hist, n>>
None == 0

Init == /\ vib \in Versions /\ rho = [r \in Rs |-> vib]
        /\ obj = [R |-> CHOOSE r \in Rs : \A q \in Rs : r <= q, hv |-> None, hr |-> None]
        /\ store = {} /\ jobs = {} /\ ana = [r \in Rs |-> <<None, None>>] /\ thermo = {}
        /\ hist = <<[op |-> "init", v |-> vib, R |-> obj.R]>> /\ n = 0

Room == Len(hist) <= MaxSteps
Do(op) == Room /\ op \in Ops
Say(rec) == hist' = Append(hist, rec)

EditVib(v) == /\ Do("editvib") /\ v # vib /\ vib' = v
              /\ Say([op |-> "editvib", v |-> v]) /\ UNCHANGED <<rho, obj, store, jobs, ana, thermo, n>>
EditRho(R, v) == /\ Do("editrho") /\ v # rho[R] /\ rho' = [rho EXCEPT ![R] = v]
                 /\ Say([op |-> "editrho", R |-> R, v |-> v]) /\ UNCHANGED <<vib, obj, store, jobs, ana, thermo, n>>
\* the handle
Same(r) == obj' = r
Switch(R) == /\ Do("switch") /\ obj' = [obj EXCEPT !.R = R, !.hr = None]
             /\ Say([op |-> "switch", R |-> R]) /\ UNCHANGED <<vib, rho, store, jobs, ana, thermo, n>>
New(R) == /\ Do("new") /\ obj' = [R |-> R, hv |-> None, hr |-> None]
          /\ Say([op |-> "new", R |-> R]) /\ UNCHANGED <<vib, rho, store, jobs, ana, thermo, n>>
Refresh(o, force) == IF o.hv # None /\ o.hr # None /\ ~force THEN o ELSE [o EXCEPT !.hv = vib, !.hr = rho[o.R]]
Hash(force) == /\ Do("hash") /\ obj' = Refresh(obj, force)
               /\ Say([op |-> "hash", force |-> force, hv |-> obj'.hv, hr |-> obj'.hr])
               /\ UNCHANGED <<vib, rho, store, jobs, ana, thermo, n>>
\* jobs
Start(R, pr, J, X) == /\ Do("job") /\ Cardinality(jobs) < MaxJobs
                      /\ jobs' = jobs \union {[id |-> n + 1, R |-> R, P |-> pr[1], T |-> pr[2], J |-> J, X |-> X, hv |-> vib, hr |-> rho[R]]}
                      /\ n' = n + 1
                      /\ Say([op |-> "start", id |-> n + 1, R |-> R, P |-> pr[1], T |-> pr[2], J |-> J, X |-> X])
                      /\ UNCHANGED <<vib, rho, obj, store, ana, thermo>>
SameFile(f, g) == f.R = g.R /\ f.P = g.P /\ f.T = g.T /\ f.J = g.J
Finish(j) == /\ Do("job") /\ j \in jobs /\ jobs' = jobs \ {j}
             /\ store' = {f \in store : ~SameFile(f, j)} \union {j}
             /\ Say([op |-> "finish", id |-> j.id, hv |-> j.hv, hr |-> j.hr])
             /\ UNCHANGED <<vib, rho, obj, ana, thermo, n>>
\* reference data for the analysis, labelled like everything else
Reference(R) == /\ Do("reference") /\ ana' = [ana EXCEPT ![R] = <<vib, rho[R]>>]
                /\ Say([op |-> "reference", R |-> R]) /\ UNCHANGED <<vib, rho, obj, store, jobs, thermo, n>>
\* what the handle may use
Labelled(f, o) == f.R = o.R /\ f.hv = o.hv /\ f.hr = o.hr
Usable(o) == {f \in store : Labelled(f, o)}
Of(pr, S) == {f \in S : f.P = pr[1] /\ f.T = pr[2]}
Ids(S) == SetToSortSeq({f.id : f \in S}, <)
Pool(pr) == /\ Do("pool") /\ obj.hv # None /\ obj.hr # None
            /\ Say([op |-> "pool", P |-> pr[1], T |-> pr[2], ids |-> Ids(Of(pr, Usable(obj)))])
            /\ UNCHANGED <<vib, rho, obj, store, jobs, ana, thermo, n>>
Total(S) == FoldSet(LAMBDA f, acc : acc + f.X, 0, S)
Todo(o) == {pr \in Pairs : Of(pr, Usable(o)) # {}}
Out(o) == {[R |-> o.R, P |-> pr[1], T |-> pr[2], X |-> Total(Of(pr, Usable(o))), ids |-> {f.id : f \in Of(pr, Usable(o))},
            hv |-> o.hv, hr |-> o.hr] : pr \in Todo(o)}
SameThermo(a, b) == a.R = b.R /\ a.P = b.P /\ a.T = b.T /\ a.X = b.X
Analyse(m) == /\ Do("analyse")
              /\ obj' = Refresh(obj, FALSE)
              /\ LET o == obj'
                     refused == Todo(o) # {} /\ ana[o.R] # <<o.hv, o.hr>>
                 IN  /\ thermo' = IF refused THEN thermo ELSE {t \in thermo : \A u \in Out(o) : ~SameThermo(t, u)} \union Out(o)
                     /\ Say([op |-> "analyse", method |-> m, refused |-> refused, out |-> IF refused THEN {} ELSE Out(o)])
              /\ UNCHANGED <<vib, rho, store, jobs, ana, n>>
\* analysed values of the current contents that were calculated elsewhere and are put in place
Deposit(R, pr, X) == /\ Do("deposit")
                     /\ LET t == [R |-> R, P |-> pr[1], T |-> pr[2], X |-> X, ids |-> {}, hv |-> vib, hr |-> rho[R]]
                        IN  thermo' = {u \in thermo : ~SameThermo(t, u)} \union {t}
                     /\ Say([op |-> "deposit", R |-> R, P |-> pr[1], T |-> pr[2], X |-> X])
                     /\ UNCHANGED <<vib, rho, obj, store, jobs, ana, n>>
\* the table from which plots are made: what the handle may use of the analysed values
Plotted(o) == {t \in thermo : Labelled(t, o)}
Plot == /\ Do("plot") /\ obj' = Refresh(obj, FALSE)
        /\ Say([op |-> "plot", rows |-> Plotted(obj')])
        /\ UNCHANGED <<vib, rho, store, jobs, ana, thermo, n>>
Next == \/ \E v \in Versions : EditVib(v) \/ \E R \in Rs : EditRho(R, v)
        \/ \E R \in Rs : Switch(R) \/ New(R) \/ Reference(R)
        \/ \E b \in BOOLEAN : Hash(b)
        \/ \E R \in Rs, pr \in Pairs, J \in Js, X \in Xs : Start(R, pr, J, X)
        \/ \E j \in jobs : Finish(j)
        \/ \E pr \in Pairs : Pool(pr)
        \/ \E R \in Rs, pr \in Pairs, X \in Xs : Deposit(R, pr, X)
        \/ \E m \in {"basic", "alpha", "jbasic", "jalpha"} : Analyse(m)
        \/ Plot
Spec == Init /\ [][Next]_vars

\* ---- properties
\* nothing that was calculated with other contents is ever used together with, or instead of, the object's
NeverMixed == \A t \in thermo : \A i \in t.ids : \A f \in store : f.id = i => (f.hv = t.hv /\ f.hr = t.hr /\ f.R = t.R)
\* analysed values of other contents are never shown
PlotsAreOwn == \A i \in DOMAIN hist : hist[i].op = "plot" => \A t, u \in hist[i].rows : t.hv = u.hv /\ t.hr = u.hr /\ t.R = u.R
\* a freshly hashed handle only uses results of the contents now on disk
FreshIsCurrent == LET o == Refresh([R |-> obj.R, hv |-> None, hr |-> None], FALSE)
                  IN  \A f \in Usable(o) : f.hv = vib /\ f.hr = rho[obj.R]
\* a handle never uses the identity of another sampling id
SwitchDrops == [][\A R \in Rs : obj'.R # obj.R => obj'.hr = None \/ obj'.hr = rho[obj'.R]]_vars
\* a result keeps the label of what it was calculated with
LabelsStay == [][\A f \in store : f \in store' \/ \E g \in store' : SameFile(f, g) /\ g.id > 0]_vars
TypeOK == /\ \A f, g \in store : SameFile(f, g) => f = g
          /\ Cardinality(jobs) <= MaxJobs
Emit == (Len(hist) > 1 /\ hist[Len(hist)].op \in Ends /\ (Len(hist) = MaxSteps + 1 \/ store # {} \/ thermo # {})) =>
          PrintT("@@" \o ToJson([hist |-> hist,
                  store |-> store, fresh |-> Ids(Usable([R |-> obj.R, hv |-> vib, hr |-> rho[obj.R]])),
                  mine |-> IF obj.hv # None /\ obj.hr # None THEN Ids(Usable(obj)) ELSE <<>>, obj |-> obj,
                  tfresh |-> Plotted([R |-> obj.R, hv |-> vib, hr |-> rho[obj.R]]),
                  labels |-> {[t |-> t, vib |-> t.hv = obj.hv, rho |-> t.hr = obj.hr] : t \in thermo},
                  tmine |-> IF obj.hv # None /\ obj.hr # None THEN Plotted(obj) ELSE {}]))
=============================================================================
