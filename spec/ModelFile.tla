------------------------------ MODULE ModelFile ------------------------------
(***************************************************************************)
(* Histories of saving, loading and in-place loading of model files.       *)
(***************************************************************************)
EXTENDS ModelFileOps, TLC, Json, FiniteSetsExt
CONSTANTS Paths, Dims, MaxSteps, NzSets,
          Scripts   \* when not empty: sequences of operation names a history has to follow
VARIABLES disk,    \* path -> [kind, dims, arr] or NoFile
          buf,     \* caller-owned arrays: [kind, dims, arr]
          hist
vars == <<disk, buf, hist>>
NoFile == [kind |-> "none", dims |-> <<0, 0>>, arr |-> Zeros]
NoBuf == NoFile

Init == /\ disk = [p \in Paths |-> NoFile] /\ buf = NoBuf /\ hist = <<>>
Room == Len(hist) < MaxSteps
Tok == Len(hist) + 1

Save(p, kind, d, nz) ==
    /\ Room
    /\ disk' = [disk EXCEPT ![p] = [kind |-> kind, dims |-> d, arr |-> Content(Tok, nz)]]
    /\ hist' = Append(hist, [op |-> "save", p |-> p, kind |-> kind, dims |-> d, nz |-> nz, tok |-> Tok, after |-> disk'[p]])
    /\ UNCHANGED buf

\* one array has a wrong shape: the save is refused and nothing on disk changes
SaveBad(p, kind, d, bad) ==
    /\ Room /\ disk[p].kind # "none"
    /\ hist' = Append(hist, [op |-> "savebad", p |-> p, kind |-> kind, dims |-> d, bad |-> bad, tok |-> Tok, after |-> disk[p]])
    /\ UNCHANGED <<disk, buf>>

Load(p) ==
    /\ Room /\ disk[p].kind # "none"
    /\ hist' = Append(hist, [op |-> "load", p |-> p, after |-> disk[p]])
    /\ UNCHANGED <<disk, buf>>

\* fresh buffers full of stale numbers
Alloc(kind, d) ==
    /\ Room /\ buf' = [kind |-> kind, dims |-> d, arr |-> [k \in Arrays |-> Tok]]
    /\ hist' = Append(hist, [op |-> "alloc", kind |-> kind, dims |-> d, tok |-> Tok, after |-> buf'])
    /\ UNCHANGED disk

LoadInto(p) ==
    /\ Room /\ disk[p].kind # "none" /\ buf.kind = disk[p].kind
    /\ LET ok == buf.dims = disk[p].dims IN
       /\ buf' = IF ok THEN disk[p] ELSE buf
       /\ hist' = Append(hist, [op |-> "into", p |-> p, ok |-> ok, after |-> buf'])
    /\ UNCHANGED disk

\* which operation may come next
On(op) == Scripts = {} \/ \E s \in Scripts : Len(s) > Len(hist) /\ s[Len(hist) + 1] = op
                            /\ \A i \in DOMAIN hist : hist[i].op = s[i]
Next == \/ On("save") /\ \E p \in Paths, kind \in Kinds, d \in Dims, nz \in NzSets : Save(p, kind, d, nz)
        \/ On("savebad") /\ \E p \in Paths, kind \in Kinds, d \in Dims, b \in {"E", "w", "G1", "G2"} : SaveBad(p, kind, d, b)
        \/ On("load") /\ \E p \in Paths : Load(p)
        \/ On("into") /\ \E p \in Paths : LoadInto(p)
        \/ On("alloc") /\ \E kind \in Kinds, d \in Dims : Alloc(kind, d)

\* ---- properties
\* a file never mixes entries of two different saves
OneSavePerFile == \A p \in Paths : Cardinality({disk[p].arr[k] : k \in Arrays} \ {0}) <= 1
\* after an in-place load no stale entry survives
NoStale == hist # <<>> => (LET h == hist[Len(hist)] IN (h.op = "into" /\ h.ok) => buf.arr = disk[h.p].arr)
View == <<disk, buf, Len(hist)>>
EmitScripted == (Len(hist) = MaxSteps /\ hist[MaxSteps].op = "into") => PrintT("@@" \o ToJson(hist))
EmitFull == Len(hist) = MaxSteps => PrintT("@@" \o ToJson(hist))
=============================================================================
