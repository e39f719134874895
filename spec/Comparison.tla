----------------------------- MODULE Comparison -----------------------------
(***************************************************************************)
(* What a comparison plot is made of (P19).                                *)
(*                                                                         *)
(* Every data set D has a coupled model, every <<D, R>> a sampling model;  *)
(* both are files whose contents (versions) may change.  Analysed values   *)
(* and reference values are labelled with the contents they were           *)
(* calculated with.  The references of one file share one label: storing   *)
(* a value for other contents drops what was there.  Kinds of references:  *)
(*   "rho"   exact normalisation of a sampling model, one file per <<D, R>> *)
(*   "orig"  exact values of the original model, one file per D            *)
(*   "sos"   sum over states, one file per D and basis size                *)
(*   "trot"  finite number of beads, one file per D, beads and basis size  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Sets, Rs, Versions, Ps, Ts, Xs, Bs, Kinds, Ops, Classes, MaxSteps, Ends
VARIABLES vib, rho, res, ref, n, hist
vars == <<vib, rho, res, ref, n, hist>>
Default == 80       \* basis size of the plots
Handles == Sets \X Rs
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)

Init == /\ vib = [d \in Sets |-> 1] /\ rho = [h \in Handles |-> 1]
        /\ res = {} /\ ref = {} /\ n = 0 /\ hist = <<>>
Do(op) == Len(hist) < MaxSteps /\ op \in Ops
Say(r) == hist' = Append(hist, r)
Label(d, r) == <<vib[d], IF r = -1 THEN 0 ELSE rho[<<d, r>>]>>

Edit(d, v) == /\ Do("edit") /\ vib[d] # v /\ vib' = [vib EXCEPT ![d] = v]
              /\ Say([op |-> "edit", D |-> d, v |-> v]) /\ UNCHANGED <<rho, res, ref, n>>
EditRho(h, v) == /\ Do("editrho") /\ rho[h] # v /\ rho' = [rho EXCEPT ![h] = v]
                 /\ Say([op |-> "editrho", D |-> h[1], R |-> h[2], v |-> v]) /\ UNCHANGED <<vib, res, ref, n>>
SameRes(a, b) == a.D = b.D /\ a.R = b.R /\ a.P = b.P /\ a.T = b.T /\ a.X = b.X
Result(h, P, T, X) ==
    /\ Do("result")
    /\ LET r == [D |-> h[1], R |-> h[2], P |-> P, T |-> T, X |-> X, l |-> Label(h[1], h[2]), z |-> n + 1]
       IN  res' = {x \in res : ~SameRes(x, r)} \union {r}
    /\ n' = n + 1
    /\ Say([op |-> "result", D |-> h[1], R |-> h[2], P |-> P, T |-> T, X |-> X, z |-> n + 1]) /\ UNCHANGED <<vib, rho, ref>>
\* the file of a reference
File(x) == <<x.kind, x.D, x.R, x.P, x.B>>
Reference(kind, h, P, B, T) ==
    /\ Do("reference") /\ kind \in Kinds
    /\ LET r == [kind |-> kind, D |-> h[1], R |-> IF kind = "rho" THEN h[2] ELSE -1, P |-> IF kind = "trot" THEN P ELSE 0,
                 B |-> IF kind \in {"sos", "trot"} THEN B ELSE 0, T |-> T,
                 l |-> Label(h[1], IF kind = "rho" THEN h[2] ELSE -1), v |-> Two(n % 6)]
       IN  /\ ref' = {x \in ref : File(x) # File(r) \/ (x.l = r.l /\ x.T # r.T)} \union {r}
           /\ Say([op |-> "reference", kind |-> kind, D |-> r.D, R |-> r.R, P |-> r.P, B |-> r.B, T |-> T, v |-> r.v])
    /\ n' = n + 1 /\ UNCHANGED <<vib, rho, res>>

\* everything at once, except the results of one handle at one temperature and the references of one kind at one temperature
AllRes == {<<h, P, T, X>> : h \in Handles, P \in Ps, T \in Ts, X \in Xs}
AllRef == {<<k, h, P, B, T>> \in Kinds \X Handles \X (Ps \union {0}) \X (Bs \union {0}) \X Ts :
             /\ k = "trot" <=> P # 0
             /\ k \in {"sos", "trot"} <=> B # 0
             /\ k # "rho" => h[2] = CHOOSE r \in Rs : TRUE}
Fill(h0, t0, k0, t1) ==
    /\ Do("fill") /\ hist = <<>>
    /\ LET rs == SetToSeq({x \in AllRes : ~(x[1] = h0 /\ x[3] = t0)})
           fs == SetToSeq({x \in AllRef : ~(x[1] = k0 /\ x[5] = t1)})
           mr(i) == [D |-> rs[i][1][1], R |-> rs[i][1][2], P |-> rs[i][2], T |-> rs[i][3], X |-> rs[i][4], l |-> Label(rs[i][1][1], rs[i][1][2]), z |-> i]
           mf(i) == [kind |-> fs[i][1], D |-> fs[i][2][1], R |-> IF fs[i][1] = "rho" THEN fs[i][2][2] ELSE -1, P |-> fs[i][3], B |-> fs[i][4], T |-> fs[i][5],
                     l |-> Label(fs[i][2][1], IF fs[i][1] = "rho" THEN fs[i][2][2] ELSE -1), v |-> Two(i % 6)]
       IN  /\ res' = {mr(i) : i \in DOMAIN rs} /\ ref' = {mf(i) : i \in DOMAIN fs}
           /\ n' = Len(rs) /\ Say([op |-> "fill", results |-> res', references |-> ref'])
    /\ UNCHANGED <<vib, rho>>

\* all the results of one handle, calculated anew for the contents that are on disk
Recalculate(h) ==
    /\ Do("recalc")
    /\ LET rs == SetToSeq({x \in AllRes : x[1] = h})
           mr(i) == [D |-> h[1], R |-> h[2], P |-> rs[i][2], T |-> rs[i][3], X |-> rs[i][4], l |-> Label(h[1], h[2]), z |-> n + i]
           new == {mr(i) : i \in DOMAIN rs}
       IN  /\ res' = {x \in res : x.D # h[1] \/ x.R # h[2]} \union new
           /\ n' = n + Len(rs) /\ Say([op |-> "recalc", results |-> new])
    /\ UNCHANGED <<vib, rho, ref>>

\* ---- what a handle shows
Rows(h) == {x \in res : x.D = h[1] /\ x.R = h[2] /\ x.l = Label(h[1], h[2])}
Axis(h, F(_)) == {F(x) : x \in Rows(h)}
Temps(h) == Axis(h, LAMBDA x : x.T)
Beads(h) == Axis(h, LAMBDA x : x.P)
Has(kind, h, P, B, T) == {x \in ref : /\ x.kind = kind /\ x.D = h[1] /\ x.T = T /\ x.P = P /\ x.B = B
                                      /\ x.R = (IF kind = "rho" THEN h[2] ELSE -1)
                                      /\ x.l = Label(h[1], IF kind = "rho" THEN h[2] ELSE -1)}
Value(kind, h, P, B, T) == (CHOOSE x \in Has(kind, h, P, B, T) : TRUE).v
\* a file with values of the current contents exists at all
Current(kind, h, B) == \E T \in Ts : Has(kind, h, 0, B, T) # {}
Complete(kind, h, B) == \A T \in Temps(h) : Has(kind, h, 0, B, T) # {}
Needs(cls) == CASE cls = "orig" -> {<<"orig", 0>>, <<"rho", 0>>} [] cls = "origdiag" -> {<<"orig", 0>>, <<"rho", 0>>}
                [] cls = "sos2" -> {<<"sos", Default>>, <<"rho", 0>>} [] OTHER -> {}
Fits(cls, hs) == CASE cls \in {"orig", "ztest"} -> Len(hs) = 1 [] cls \in {"origdiag", "sos2"} -> Len(hs) = 2 [] OTHER -> Len(hs) > 0
Seen(hs) == {hs[i] : i \in DOMAIN hs}
\* "refuse": showing something would be wrong; "any": nothing to show, or a reference nobody needs is missing
Outcome(cls, hs) ==
    IF \E h \in Seen(hs), k \in Needs(cls) : ~Complete(k[1], h, k[2]) THEN "refuse"
    ELSE IF \A h \in Seen(hs) : Rows(h) = {} THEN (IF cls \in {"orig", "ztest"} THEN "any" ELSE "refuse")
    ELSE IF \E h \in Seen(hs), k \in Needs(cls) : ~Current(k[1], h, k[2]) THEN "any"
    ELSE "ok"
\* the shown value and its error (half of it) as fractions
Cell(cls, h, x) ==
    IF cls \in {"orig", "origdiag", "sos2"}
      THEN LET zr == Value("rho", h, 0, 0, x.T)
               v == IF cls = "sos2" THEN Value("sos", h, 0, Default, x.T) ELSE Value("orig", h, 0, 0, x.T)
           IN  [P |-> x.P, T |-> x.T, X |-> x.X, z |-> x.z, num |-> 100 * (x.z * zr - v), err |-> 50 * x.z * zr, den |-> v]
      ELSE [P |-> x.P, T |-> x.T, X |-> x.X, z |-> x.z, num |-> 2 * x.z, err |-> x.z, den |-> 2]
Panel(cls, h) == [D |-> h[1], R |-> h[2], Ps |-> Beads(h), Ts |-> Temps(h), Xs |-> Axis(h, LAMBDA x : x.X), cells |-> {Cell(cls, h, x) : x \in Rows(h)}]
Show(cls, hs) ==
    /\ Do("show") /\ Fits(cls, hs)
    /\ LET out == Outcome(cls, hs)
       IN  Say([op |-> "show", cls |-> cls, hs |-> hs, out |-> out,
                panels |-> IF out = "refuse" THEN <<>> ELSE [i \in DOMAIN hs |-> Panel(cls, hs[i])]])
    /\ UNCHANGED <<vib, rho, res, ref, n>>
\* the reference curves next to it; 0 stands for no value
Curves(kind, hs, B) ==
    /\ Do("curves") /\ kind \in Kinds /\ \E h \in Seen(hs) : Rows(h) # {}
    /\ LET out == IF kind = "trot" THEN "ok"
                  ELSE IF \E h \in Seen(hs) : ~Complete(kind, h, B) THEN "refuse"
                  ELSE IF \E h \in Seen(hs) : ~Current(kind, h, B) THEN "any" ELSE "ok"
           at(h, P, T) == IF Has(kind, h, P, B, T) = {} THEN 0 ELSE Value(kind, h, P, B, T)
       IN  Say([op |-> "curves", kind |-> kind, hs |-> hs, B |-> B, out |-> out,
                table |-> IF out = "refuse" THEN <<>> ELSE
                   [i \in DOMAIN hs |-> {[T |-> t, P |-> p, v |-> at(hs[i], p, t)] : t \in Temps(hs[i]), p \in (IF kind = "trot" THEN Beads(hs[i]) ELSE {0})}]])
    /\ UNCHANGED <<vib, rho, res, ref, n>>

Lists == {<<h>> : h \in Handles} \union {<<g, h>> : g, h \in Handles}
Next == \/ \E d \in Sets, v \in Versions : Edit(d, v)
        \/ \E h \in Handles, v \in Versions : EditRho(h, v)
        \/ \E h \in Handles, P \in Ps, T \in Ts, X \in Xs : Result(h, P, T, X)
        \/ \E k \in Kinds, h \in Handles, P \in Ps, B \in Bs, T \in Ts :
              /\ k # "trot" => P = CHOOSE p \in Ps : TRUE
              /\ k \notin {"sos", "trot"} => B = CHOOSE b \in Bs : TRUE
              /\ k # "rho" => h[2] = CHOOSE r \in Rs : TRUE
              /\ Reference(k, h, P, B, T)
        \/ \E h \in Handles, t, u \in Ts \union {0}, k \in Kinds : Fill(h, t, k, u)
        \/ \E h \in Handles : Recalculate(h)
        \/ \E c \in Classes, hs \in Lists : Show(c, hs)
        \/ \E k \in Kinds, hs \in Lists, B \in Bs : Curves(k, hs, IF k \in {"sos", "trot"} THEN B ELSE 0)
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification
OneLabelPerFile == \A x, y \in ref : File(x) = File(y) => x.l = y.l /\ (x.T = y.T => x = y)
OneResult == \A x, y \in res : SameRes(x, y) => x = y
\* everything that is shown was stored for the contents that are on disk, and everything stored for them is shown
Final == hist[Len(hist)]
ShownIsOwn == (hist # <<>> /\ Final.op = "show") =>
    \A i \in DOMAIN Final.panels : \A c \in Final.panels[i].cells :
        \E x \in res : x.z = c.z /\ x.D = Final.hs[i][1] /\ x.R = Final.hs[i][2] /\ x.l = Label(x.D, x.R) /\ x.P = c.P /\ x.T = c.T /\ x.X = c.X
ShownIsAll == (hist # <<>> /\ Final.op = "show" /\ Final.out # "refuse") =>
    \A i \in DOMAIN Final.hs : \A x \in Rows(Final.hs[i]) : \E c \in Final.panels[i].cells : c.z = x.z
Emit == (hist # <<>> /\ Final.op \in Ends) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
