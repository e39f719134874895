----------------------------- MODULE ResultStore -----------------------------
(***************************************************************************)
(* The store of Monte-Carlo results of one (beads, temperature) pair as a  *)
(* state machine: jobs save files (a later save under the same job number  *)
(* replaces the file), then an analysis pools the files one after another  *)
(* in an arbitrary order, up to an optional cap.                           *)
(***************************************************************************)
EXTENDS ResultStoreOps, TLC, Json
CONSTANTS Jobs, Sizes, KindSet, MaxSaves, Caps, Ordered

VARIABLES store,   \* job -> file record or "none"
          saves,   \* history of saves
          mode,    \* "saving", "pooling", "done"
          req,     \* the pooling request [cls, cap]
          left,    \* files not opened yet
          acc,     \* samples pooled so far
          status   \* "" | "refused"
vars == <<store, saves, mode, req, left, acc, status>>

None == [j |-> 0, ver |-> 0, n |-> 0, kind |-> "none"]
Init == /\ store = [j \in Jobs |-> None]
        /\ saves = <<>> /\ mode = "saving" /\ req = [cls |-> "pm", cap |-> 0]
        /\ left = {} /\ acc = <<>> /\ status = ""

Rank(k) == CASE k = "pm" -> 1 [] k = "basic" -> 2 [] k = "junk" -> 3 [] k = "zero" -> 4 [] k = "zmid" -> 5
             [] k = "zlast" -> 6 [] k = "norho" -> 7 [] k = "nog" -> 8 [] k = "nogp" -> 9 [] k = "nogm" -> 10
             [] OTHER -> 11
\* in the ordered configuration job numbers are fresh and files are saved in canonical order, so
\* every multiset of files appears exactly once
Canonical(j, n, k) ==
    Ordered => /\ j = Len(saves) + 1
               /\ saves # <<>> =>
                    LET l == saves[Len(saves)]
                    IN  1000 * Rank(l.kind) + l.n <= 1000 * Rank(k) + n

Save(j, n, k) ==
    /\ mode = "saving" /\ Len(saves) < MaxSaves /\ Canonical(j, n, k)
    /\ LET f == [j |-> j, ver |-> Len(saves) + 1, n |-> n, kind |-> k]
       IN  store' = [store EXCEPT ![j] = f] /\ saves' = Append(saves, f)
    /\ UNCHANGED <<mode, req, left, acc, status>>

Files == LET js == {j \in Jobs : store[j].kind # "none"}
         IN  [i \in 1..Cardinality(js) |-> store[CHOOSE j \in js : Cardinality({x \in js : x < j}) = i - 1]]

Request(cls, cap) ==
    /\ mode = "saving"
    /\ req' = [cls |-> cls, cap |-> cap]
    /\ IF MustRefuse(cls, Files, cap)
         THEN mode' = "done" /\ status' = "refused" /\ left' = {} 
         ELSE mode' = "pooling" /\ status' = "" /\ left' = {Files[i] : i \in GoodIdx(cls, Files)}
    /\ UNCHANGED <<store, saves, acc>>

Open(f) ==
    LET room == Wanted(req.cls, Files, req.cap) - Len(acc)
        take == IF f.n < room THEN f.n ELSE room
    IN
    /\ mode = "pooling" /\ f \in left /\ room > 0
    /\ left' = left \ {f}
    /\ IF HasZero(f) /\ ZeroAt(f) <= take
         THEN /\ status' = "refused" /\ mode' = "done" /\ UNCHANGED acc
         ELSE /\ acc' = acc \o [s \in 1..take |-> <<f.j, f.ver, s>>]
              /\ mode' = IF room = take THEN "done" ELSE "pooling"
              /\ UNCHANGED status
    /\ UNCHANGED <<store, saves, req>>

Next == \/ \E j \in Jobs, n \in Sizes, k \in KindSet : Save(j, n, k)
        \/ \E cls \in Classes, cap \in Caps : Request(cls, cap)
        \/ \E f \in left : Open(f)

\* ---- properties of the specification
NoSampleTwice == \A a, b \in DOMAIN acc : a # b => acc[a] # acc[b]
NeverMoreThanAsked == req.cap > 0 => Len(acc) <= req.cap
OnlyCurrentFiles == \A a \in DOMAIN acc : store[acc[a][1]].ver = acc[a][2]
CompleteWhenDone ==
    (mode = "done" /\ status = "") => Len(acc) = Wanted(req.cls, Files, req.cap)
\* the operator that judges recorded runs accepts exactly what the machine produces
JudgeAgrees ==
    mode = "done" =>
      Verdict([cls |-> req.cls, files |-> Files, cap |-> req.cap, refused |-> status = "refused",
               samples |-> Len(acc), rho |-> acc, g |-> acc, gp |-> acc, gm |-> acc, undef |-> 0]) = ""
\* the machine never gets stuck half way
NoStuckPool == mode = "pooling" => \E f \in left : Wanted(req.cls, Files, req.cap) > Len(acc)

Emit == (mode \in {"pooling", "done"} /\ acc = <<>> /\ (mode = "done" \/ left = {Files[i] : i \in GoodIdx(req.cls, Files)}))
        => PrintT("@@" \o ToJson([saves |-> saves, files |-> Files, cls |-> req.cls, cap |-> req.cap]))
=============================================================================
