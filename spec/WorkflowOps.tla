---------------------------- MODULE WorkflowOps ----------------------------
(* what the runs of a workflow may submit (P08)                            *)
(* c.start: number of states chosen by the user, c.good: number of states  *)
(*   that pass the check of the singles (0: none)                          *)
(* c.runs[r]: log: the jobs submitted, each [step, nip, ok, seen, geom,    *)
(*   ready]: the step it belongs to (0: none), the number of states in its *)
(*   input (0 if it has none), whether the job and its output were good,   *)
(*   whether the batch system was heard to report its completion, geom     *)
(*   "initial", "optimised", "other" or "none", ready (0/1): its prepared  *)
(*   files are right                                                       *)
(*   ended: "finished", "raised", "crashed"                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Steps == 6
Ip == 4
\* the position of the first entry that has to come after entry e of the run
Fine(e) == e.ok = 1
Insufficient(c, e) == e.step = Ip /\ e.nip > c.good
Follows(c, e, f) ==
    IF Insufficient(c, e) THEN f.step = Ip /\ f.nip = e.nip - 1
    ELSE f.step = e.step + 1 /\ (f.step = Ip => f.nip = c.start)
First(c, lo, hi, f) == f.step \in lo..hi /\ (f.step = Ip => f.nip = c.start)
EntryOK(c, e) ==
    /\ e.geom = (IF e.step = 1 THEN "initial" ELSE IF e.step = Steps THEN "none" ELSE "optimised")
    /\ (e.step = 5 => e.nip = c.good) /\ e.ready = 1
RunClause(c, r, lo, hi) ==
    LET log == r.log
        n == Len(log)
    IN  IF \E i \in 1..n : log[i].step = 0 THEN "only the jobs of the workflow are submitted"
        ELSE IF n > 0 /\ log[1].step < lo THEN "a completed step is not repeated"
        ELSE IF n > 0 /\ ~ First(c, lo, hi, log[1]) THEN "no step is left out"
        ELSE IF \E i \in 1..(n - 1) : ~ Fine(log[i]) THEN "nothing is submitted after a step failed"
        ELSE IF \E i \in 1..(n - 1) : ~ Follows(c, log[i], log[i + 1]) THEN "the steps follow each other in the prescribed order"
        ELSE IF \E i \in 1..n : ~ EntryOK(c, log[i]) THEN "every step uses the results of the steps before it"
        ELSE IF n > 0 /\ ~ Fine(log[n]) /\ r.ended = "finished" THEN "a failed step is reported"
        ELSE IF n = 0 /\ r.ended = "finished" /\ hi <= Steps THEN "a run ends after the last step"
        ELSE IF n > 0 /\ r.ended = "finished" /\ log[n].step # Steps THEN "a run ends after the last step"
        ELSE IF r.ended = "killed" THEN "a run ends by itself"
        ELSE IF r.ended = "raised" /\ ~ (n > 0 /\ (~ Fine(log[n]) \/ (Insufficient(c, log[n]) /\ log[n].nip = 1))) THEN "a run without failures finishes"
        ELSE ""
\* the steps the next run may start with
After(c, r, lo, hi) ==
    LET n == Len(r.log)
        e == r.log[n]
    IN  IF n = 0 THEN <<lo, hi>>
        ELSE IF r.ended = "finished" THEN <<Steps + 1, Steps + 1>>
        ELSE IF ~ Fine(e) \/ Insufficient(c, e) THEN <<e.step, e.step>>
        ELSE <<e.step, IF e.seen = 1 THEN e.step + 1 ELSE e.step>>
RECURSIVE Walk(_, _, _, _)
Walk(c, k, lo, hi) ==
    IF k > Len(c.runs) THEN ""
    ELSE LET v == RunClause(c, c.runs[k], lo, hi)
             a == After(c, c.runs[k], lo, hi)
         IN  IF v # "" THEN v ELSE Walk(c, k + 1, a[1], a[2])
VerdictWorkflow(c) == Walk(c, 1, 1, 1)
\* ---- the output of a calculation: c.pos = lines after the line that reports success (-1: no such line), c.n lines
VerdictCompleted(c) ==
    IF c.pos >= 0 /\ c.pos <= 4 THEN (IF c.out = "returned" THEN "" ELSE "a completed calculation is accepted")
    ELSE IF c.pos = -1 \/ c.pos >= 15 THEN (IF c.out # "returned" THEN "" ELSE "a calculation without success at its end is reported")
    ELSE ""
\* ---- parameters: c.want and c.got are functions from names to values (as strings), for every object
VerdictParameters(c) == IF c.got = c.want THEN "" ELSE "every workflow has the parameters of its own file"
\* ---- overview of several molecules: c.recorded[m] steps in the state file of molecule m (last one counts), c.told[m]: steps named for it
VerdictOverview(c) ==
    IF \A m \in 1..Len(c.recorded) :
        LET r == c.recorded[m] IN c.told[m] = (IF Len(r) = 0 THEN <<>> ELSE <<r[Len(r)]>>)
    THEN "" ELSE "the overview names the step each molecule really reached"
=============================================================================
