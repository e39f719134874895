---------------------------- MODULE SubmissionOps ----------------------------
(* what a submission has to achieve: for every combination of temperature and beads enough whole-block jobs *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Total(p) == IF p.overall = 0 THEN p.n ELSE p.overall
Shared == {"orca", "graham"}      \* clusters which choose the partition themselves
Valid(p, max) == /\ p.block <= p.n /\ p.block <= max /\ p.host \in {"nlogn", "feynman"} \union Shared
                 /\ p.host \in Shared \/ p.part \in {"", "serial", "highmem"}
Partition(p) == IF p.host \in Shared THEN "" ELSE IF p.part # "" THEN p.part ELSE IF p.host = "feynman" THEN "highmem" ELSE "serial"
\* one possible division: equal jobs of whole blocks
PerJob(p, max) == (((IF p.n < max THEN p.n ELSE max) \div p.block) * p.block)
Jobs(p, max) == (Total(p) + PerJob(p, max) - 1) \div PerJob(p, max)
SumOf(js) == FoldSeq(LAMBDA j, acc : acc + j.X, 0, js)
OfPair(js, T, P) == SelectSeq(js, LAMBDA j : j.T = T /\ j.P = P)
Range1(s) == {s[i] : i \in 1..Len(s)}
\* c.p: the request, c.max, c.jobs: what was submitted (X, blocks, block, T, P, A, N, D, R), c.raised
VerdictSubmission(c) ==
    LET p == c.p
        pairs == {<<T, P>> : T \in Range1(p.Ts), P \in Range1(p.Ps)}
    IN  IF ~ Valid(p, c.max) THEN (IF c.raised = 1 /\ c.jobs = <<>> THEN "" ELSE "an impossible request is refused without submitting anything")
        ELSE IF c.raised = 1 THEN "a possible request is submitted"
        ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].X # c.jobs[i].blocks * c.jobs[i].block THEN "a job draws whole blocks"
        ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].X < 1 \/ c.jobs[i].X > c.max THEN "size of a job"
        ELSE IF \E i \in 1..Len(c.jobs) : <<c.jobs[i].T, c.jobs[i].P>> \notin pairs THEN "only requested combinations are submitted"
        ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].block # p.block \/ c.jobs[i].A # p.A \/ c.jobs[i].N # p.N \/ c.jobs[i].D # p.D \/ c.jobs[i].R # p.R THEN "parameters of a job are the requested ones"
        ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].dB # p.dB THEN "difference of inverse temperatures of a job is the requested one"
        ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].cpu # p.cpu \/ c.jobs[i].mem # p.mem \/ c.jobs[i].part # Partition(p) THEN "resources of a job are the requested ones"
        ELSE IF \E t \in pairs : SumOf(OfPair(c.jobs, t[1], t[2])) < Total(p) THEN "enough samples for every combination"
        ELSE IF \E t \in pairs : LET js == OfPair(c.jobs, t[1], t[2]) IN \E i \in 1..Len(js) : SumOf(js) - js[i].X >= Total(p) THEN "no job more than needed"
        ELSE ""
=============================================================================
