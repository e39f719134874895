---------------------------- MODULE JobSyncOps ----------------------------
(* what waiting for a submitted job has to do (P07) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
\* c.jobs: for every job waited for, in this order: seen (the states the batch system reported during this wait; "broken": it could not be asked), out ("returned", "raised", "hang", "killed", "unreached"),
\*         ends (how the job ends: "COMPLETED", "FAILED" or "unknown")
VerdictSync(c) ==
    IF \E i \in 1..Len(c.jobs) : c.jobs[i].out = "killed" THEN "waiting never ends the process"
    ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].out = "hang" THEN "waiting ends when the job has ended"
    ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].out = "returned" /\ ~ Has(c.jobs[i].seen, "COMPLETED") THEN "waiting only succeeds after the job was completed"
    ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].out = "raised" /\ Has(c.jobs[i].seen, "COMPLETED") /\ ~ Has(c.jobs[i].seen, "broken") THEN "waiting for a completed job succeeds"
    ELSE IF \E i \in 1..Len(c.jobs) : c.jobs[i].out = "raised" /\ c.jobs[i].ends = "COMPLETED" /\ ~ Has(c.jobs[i].seen, "broken") THEN "waiting for a job that completes succeeds"
    ELSE IF c.late = 1 THEN "waiting never ends the process"
    ELSE ""
\* the recorded state of a job (sacct) after the wait
VerdictResult(c) ==
    LET good == Has(c.states, "COMPLETED") /\ ~ Has(c.states, "FAILED")
    IN  IF good THEN (IF c.raised = 0 THEN "" ELSE "a completed job is accepted")
        ELSE IF c.raised = 1 THEN "" ELSE "a job that did not complete is reported"
\* the output of a job that finished, by the words it contains
VerdictOutput(c) ==
    LET w == {c.words[i] : i \in 1..Len(c.words)}
    IN  IF "Finished" \notin w THEN ""
        ELSE IF "SIGSEGV" \in w THEN (IF c.out = "MemoryError" THEN "" ELSE "a segmentation fault is reported")
        ELSE IF "Killed" \in w /\ "Exceeded step memory limit" \in w THEN (IF c.out = "MemoryError" THEN "" ELSE "a job that ran out of memory is reported")
        ELSE IF "Killed" \in w THEN (IF c.out \notin {"returned", "MemoryError"} THEN "" ELSE "a killed job is reported")
        ELSE IF c.out = "returned" THEN "" ELSE "unsuspicious output is accepted"
VerdictId(c) == IF c.got = c.id THEN "" ELSE "the number of the submitted job is returned"
=============================================================================
