---------------------------- MODULE ResultStoreOps ----------------------------
(***************************************************************************)
(* What it means to pool stored Monte-Carlo samples (property P04).        *)
(*                                                                         *)
(* A store maps job numbers to result files.  A file is a record           *)
(*   [n: number of samples, kind: what is in it, ver: which save wrote it] *)
(* kinds:  "pm"    complete file with rho, g, g+ and g-                    *)
(*         "basic" only rho and g                                          *)
(*         "junk"  some other archive without the required entries         *)
(*         "norho", "nog", "nogp", "nogm", "non"  exactly one entry is     *)
(*                 missing: rho, g, g+, g-, the number of samples          *)
(*         "zero", "zmid", "zlast"  complete file, but its first, second   *)
(*                 or last rho is exactly zero                             *)
(* Sample number s of the file (j, ver) has the identity <<j, ver, s>>.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt

ZeroKinds == {"zero", "zmid", "zlast"}
Kinds == {"pm", "basic", "junk", "norho", "nog", "nogp", "nogm", "non"} \cup ZeroKinds
Classes == {"pm", "basic"}        \* which flavour of result object does the pooling

\* the entries a pooling class needs are present in the file
Readable(cls, f) ==
    IF cls = "pm" THEN f.kind \in {"pm"} \cup ZeroKinds
                  ELSE f.kind \in {"pm", "basic", "nogp", "nogm"} \cup ZeroKinds
\* position of the vanishing density, 0 when there is none
ZeroAt(f) == CASE f.kind = "zero" -> 1
               [] f.kind = "zmid" -> (IF f.n >= 2 THEN 2 ELSE 1)
               [] f.kind = "zlast" -> f.n
               [] OTHER -> 0
HasZero(f) == ZeroAt(f) > 0

\* files is a sequence of file records [j, ver, n, kind]
GoodIdx(cls, files) == {i \in DOMAIN files : Readable(cls, files[i])}
SampleIds(f) == {<<f.j, f.ver, s>> : s \in 1..f.n}
GoodSamples(cls, files) == UNION {SampleIds(files[i]) : i \in GoodIdx(cls, files)}

\* cap = 0 means: no limit was asked for
Wanted(cls, files, cap) ==
    LET total == Cardinality(GoodSamples(cls, files))
    IN  IF cap = 0 \/ cap > total THEN total ELSE cap

MustRefuse(cls, files, cap) ==
    \/ Len(files) = 0
    \/ GoodIdx(cls, files) = {}
    \/ /\ \E i \in GoodIdx(cls, files) : HasZero(files[i])
       /\ Wanted(cls, files, cap) = Cardinality(GoodSamples(cls, files))
MayRefuse(cls, files, cap) ==
    \/ MustRefuse(cls, files, cap)
    \/ \E i \in GoodIdx(cls, files) : HasZero(files[i])

(***************************************************************************)
(* The judgement of one recorded pooling.  c is a record                   *)
(*  [cls, files, cap, refused, samples, rho, g, gp, gm, undef]             *)
(* where rho/g/gp/gm list, per loaded position, the identity of the stored *)
(* sample that value belongs to (decoded from the value), and undef counts *)
(* positions that hold no stored value at all.                             *)
(***************************************************************************)
Ids(seq) == {seq[i] : i \in DOMAIN seq}
Verdict(c) ==
    LET want == Wanted(c.cls, c.files, c.cap)
        good == GoodSamples(c.cls, c.files)
    IN
    IF c.refused THEN (IF MayRefuse(c.cls, c.files, c.cap) THEN "" ELSE "pooling failed although every needed sample is stored")
    ELSE IF MustRefuse(c.cls, c.files, c.cap) THEN "pooling succeeded where it must be refused"
    ELSE IF c.undef > 0 THEN "pooled positions hold no stored sample"
    ELSE IF c.samples # want THEN "reported number of samples"
    ELSE IF Len(c.rho) # want THEN "number of pooled samples"
    ELSE IF \E i \in DOMAIN c.rho : c.g[i] # c.rho[i] THEN "g and rho of one position come from different samples"
    ELSE IF c.cls = "pm" /\ \E i \in DOMAIN c.rho : c.gp[i] # c.rho[i] \/ c.gm[i] # c.rho[i]
         THEN "g+/g- of one position come from different samples"
    ELSE IF Cardinality(Ids(c.rho)) # Len(c.rho) THEN "a stored sample was pooled twice"
    ELSE IF ~(Ids(c.rho) \subseteq good) THEN "a pooled sample is not one of the stored ones"
    ELSE ""

\* single-file load: expect = 0 a fresh object, otherwise the sample count the object was made for
VerdictOne(c) ==
    LET f == c.files[1]
        okToLoad == Readable(c.cls, f) /\ (c.expect = 0 \/ c.expect = f.n)
        all == [i \in 1..f.n |-> <<f.j, f.ver, i>>]
    IN
    IF ~okToLoad THEN (IF c.refused THEN "" ELSE "a file that does not fit was loaded")
    ELSE IF c.refused THEN "a fitting file was refused"
    ELSE IF c.samples # f.n THEN "reported number of samples"
    ELSE IF c.undef > 0 THEN "loaded positions hold no stored sample"
    ELSE IF c.rho # all \/ c.g # all THEN "loaded arrays differ from the saved ones"
    ELSE IF c.cls = "pm" /\ (c.gp # all \/ c.gm # all) THEN "loaded arrays differ from the saved ones"
    ELSE ""
=============================================================================
