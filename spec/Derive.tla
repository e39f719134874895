------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The pipeline that derives simpler models from the coupled model.  Files *)
(* hold tokens: the number of the coupled model they were derived from.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS As, Ns, MaxActs
VARIABLES A, N, keys, coupled, harmonic, sampling, acts
vars == <<A, N, keys, coupled, harmonic, sampling, acts>>
KeySets == {{"E"}, {"G1"}, {"E", "G1"}, {"E", "G2"}, {"E", "G1", "G2"}, {"E", "G1", "G2", "G3", "G4"}, {}}
Init == /\ A \in As /\ N \in Ns /\ keys \in KeySets
        /\ coupled = 1 /\ harmonic = 0 /\ sampling = 0 /\ acts = <<"save">>
Do(a) == Len(acts) < MaxActs /\ acts' = Append(acts, a) /\ UNCHANGED <<A, N, keys>>
Harmonic == Do("harmonic") /\ harmonic' = coupled /\ UNCHANGED <<coupled, sampling>>
Sampling == Do("sampling") /\ harmonic' = coupled /\ sampling' = coupled /\ UNCHANGED coupled
Remove   == Do("remove") /\ UNCHANGED <<coupled, harmonic, sampling>>
Change   == Do("change") /\ coupled' = coupled + 1 /\ UNCHANGED <<harmonic, sampling>>
Next == Harmonic \/ Sampling \/ Remove \/ Change

\* deriving never writes the coupled model; only an explicit change does
SourceUntouched == coupled = 1 + Len(SelectSeq(acts, LAMBDA a : a = "change"))
\* a sampling model is never newer than the coupled model, and right after it is made it is
\* the same as the harmonic model
HarmonicIsSampling == /\ sampling <= coupled /\ harmonic <= coupled
                      /\ acts[Len(acts)] = "sampling" => (sampling = harmonic /\ sampling = coupled)
Emit == (Len(acts) = MaxActs /\ acts[MaxActs] # "change") =>
            PrintT("@@" \o ToJson([A |-> A, N |-> N, keys |-> keys, acts |-> acts]))
=============================================================================
