------------------------------- MODULE Listing -------------------------------
(* a results folder filled with files of all kinds; what each listing has to return,    *)
(* and which parameters belong to each name                                              *)
EXTENDS LayoutOps, Json, FiniteSetsExt, SequencesExt
CONSTANTS Ps, Ts, Js, MaxFiles
VARIABLES files, sosV, sosR, trot
vars == <<files, sosV, sosR, trot>>
Kinds == {"pimc", "thermo", "trainin", "traing", "trainrho"}
Name(f) == CASE f.k = "pimc" -> Pimc(f.P, f.T, f.J) [] f.k = "thermo" -> Thermo(f.P, f.T, f.J) [] f.k = "trainin" -> TrainIn(f.P, f.T, f.J)
                      [] f.k = "traing" -> TrainG(f.P, f.T, f.J) [] OTHER -> TrainRho(f.P, f.T, f.J)
Init == files = {} /\ sosV \in SUBSET {2, 10, 100} /\ sosR \in SUBSET {1, 10, 100} /\ trot = {}
AddFile(k, P, T, J) == /\ Cardinality(files) < MaxFiles
                       /\ files' = files \union {[k |-> k, P |-> P, T |-> T, J |-> J]} /\ UNCHANGED <<sosV, sosR, trot>>
AddTrot(P, B) == /\ Cardinality(trot) < 4 /\ trot' = trot \union {<<P, B>>} /\ UNCHANGED <<files, sosV, sosR>>
Next == (\E k \in Kinds, P \in Ps, T \in Ts, J \in Js : AddFile(k, P, T, J)) \/ (\E P \in Ps, B \in {2, 20} : AddTrot(P, B))
Of(k) == {f \in files : f.k = k}
Beads == {f.P : f \in Of("pimc")}
Temps == {f.T : f \in Of("pimc")}
NamesDiffer == Cardinality({Name(f) : f \in files}) = Cardinality(files)
Emit == (Cardinality(files) = MaxFiles) =>
          PrintT("@@" \o ToJson([files |-> {[k |-> f.k, P |-> f.P, T |-> f.T, J |-> f.J, name |-> Name(f)] : f \in files},
                                 beads |-> SetToSortSeq(Beads, <), temps |-> SetToSortSeq(Temps, <),
                                 sosV |-> {[B |-> b, name |-> Sos(b)] : b \in sosV}, sosR |-> {[B |-> b, name |-> Sos(b)] : b \in sosR},
                                 common |-> SetToSortSeq(sosV \intersect sosR, <),
                                 trot |-> {[P |-> x[1], B |-> x[2], name |-> Trotter(x[1], x[2])] : x \in trot}]))
=============================================================================
