------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* The electronic structure workflow of one molecule (P08): a fixed        *)
(* sequence of steps, each a job of the batch system (the fourth one a     *)
(* series of jobs with fewer and fewer states).  A step is recorded in the *)
(* state file after its job completed and its output was verified.  A run  *)
(* of the workflow can be interrupted at any point, and a job can fail in  *)
(* several ways; the next run starts after the last recorded step.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, IpStep, MaxIp, MaxRuns, Kinds, EarlyRecord, Vacuous
VARIABLES recorded,  \* steps in the state file
          pc,        \* "down", "prepare", "queued", "ended", "verified", "over"
          step, ip,  \* the step in progress; for the series: number of jobs still to run
          job,       \* how the current job ends
          truth,     \* steps whose job really completed
          redone,    \* a recorded step was submitted again
          runs, hist
vars == <<recorded, pc, step, ip, job, truth, redone, runs, hist>>
Init == recorded = 0 /\ pc = "down" /\ step = 1 /\ ip = 0 /\ job = "none" /\ truth = {} /\ redone = FALSE /\ runs = 0 /\ hist = <<>>
Start == /\ pc = "down" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ IF recorded = Steps THEN pc' = "over" /\ UNCHANGED step ELSE pc' = "prepare" /\ step' = recorded + 1
         /\ ip' \in (IF recorded + 1 <= IpStep THEN 1..MaxIp ELSE {ip}) /\ (hist # <<>> /\ recorded >= 0 => ip' = hist[1].ip)
         /\ hist' = Append(hist, [ip |-> ip', end |-> "finished", step |-> 0, kind |-> "", left |-> 0])
         /\ UNCHANGED <<recorded, job, truth, redone>>
Kind(end, kind) == hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.end = end, !.step = step, !.kind = kind, !.left = IF step = IpStep THEN ip ELSE 0]]
Submit == /\ pc = "prepare" /\ pc' = "queued" /\ job' \in {"ok"} \cup Kinds[step] /\ redone' = (redone \/ step <= recorded)
          /\ recorded' = (IF EarlyRecord THEN step ELSE recorded)
          /\ (IF job' # "ok" THEN Kind("failed", job') ELSE UNCHANGED hist) /\ UNCHANGED <<step, ip, truth, runs>>
JobEnds == pc = "queued" /\ pc' = "ended" /\ truth' = (IF job = "ok" /\ (step # IpStep \/ ip = 1) THEN truth \cup {step} ELSE truth) /\ UNCHANGED <<recorded, step, ip, job, redone, runs, hist>>
Verify == /\ pc = "ended"
          /\ IF job # "ok" /\ ~ Vacuous THEN pc' = "down" /\ UNCHANGED <<ip, job>>
             ELSE IF step = IpStep /\ ip > 1 THEN pc' = "prepare" /\ ip' = ip - 1 /\ UNCHANGED job
             ELSE pc' = "verified" /\ UNCHANGED <<ip, job>>
          /\ UNCHANGED <<recorded, step, truth, redone, runs, hist>>
Record == /\ pc = "verified" /\ recorded' = step
          /\ IF step = Steps THEN pc' = "over" /\ UNCHANGED step ELSE pc' = "prepare" /\ step' = step + 1
          /\ UNCHANGED <<ip, job, truth, redone, runs, hist>>
Crash == /\ pc \notin {"down", "over"} /\ pc' = "down" /\ (job = "ok" \/ pc \notin {"queued", "ended"}) /\ Kind("crash", pc)
         /\ UNCHANGED <<recorded, step, ip, job, truth, redone, runs>>
Again == pc = "over" /\ pc' = "down" /\ UNCHANGED <<recorded, step, ip, job, truth, redone, runs, hist>>
Next == Start \/ Submit \/ JobEnds \/ Verify \/ Record \/ Crash \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Submit) /\ WF_vars(JobEnds) /\ WF_vars(Verify) /\ WF_vars(Record)
View == <<recorded, pc, step, ip, job, truth, redone, runs>>
\* ---- properties
RecordedIsTrue == \A s \in 1..recorded : s \in truth            \* nothing unfinished is ever recorded
NeverRedone == ~ redone
InOrder == pc \notin {"down", "over"} => \A s \in 1..(step - 1) : s \in truth
Progress == [][recorded' >= recorded]_vars
Bounded == runs <= MaxRuns
\* a history is interesting for the replay when the workflow was finished, or no run is left
Emit == (pc = "over" \/ (pc = "down" /\ runs = MaxRuns)) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
