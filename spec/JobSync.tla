------------------------------ MODULE JobSync ------------------------------
(***************************************************************************)
(* Waiting for submitted jobs (P07).  A job tells the waiting process with *)
(* a signal that it is almost done (any number of times, or never when it  *)
(* is killed); the batch system reports its state.  The signal handler     *)
(* records the signal under a lock it may not wait for; when the lock is   *)
(* taken it sets an alarm, so that a signal arriving between the test of   *)
(* the flag and the wait is not lost.                                      *)
(*                                                                         *)
(* Safe   : an alarm that arrives outside the wait has no effect           *)
(* Patient: the wait for the signal also looks at the state of the job     *)
(* Tidy   : the lock is given back when the batch system cannot be asked   *)
(* With all of them the protocol satisfies all properties; without any TLC *)
(* finds the process killed by the late alarm, or waiting forever.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NJobs, MaxSignals, Endings, Safe, Patient, Tidy, MaxBreaks
VARIABLES job,      \* [n, state]: number of the job and its state
          ending,   \* how it will end
          sent,     \* signals sent by this job
          broken,   \* [now, times]: the batch system cannot be asked at the moment; how often this happened
          pc, handler, lock, flag, alarm, alive, result, hist
vars == <<job, ending, sent, broken, pc, handler, lock, flag, alarm, alive, result, hist>>
Running == "RUNNING"
Init == /\ job = [n |-> 1, state |-> Running] /\ ending \in Endings /\ sent = 0 /\ broken = [now |-> FALSE, times |-> 0] /\ pc = "look" /\ handler = <<>> /\ lock = "free"
        /\ flag = FALSE /\ alarm = FALSE /\ alive = TRUE /\ result = <<>> /\ hist = <<[op |-> "job", ends |-> ending]>>
Over == job.state # Running
\* ---- environment
Signal ==   \* the job sends its signal: it interrupts the main program or the handler, or wakes the wait
    /\ alive /\ job.n <= NJobs /\ job.state = Running /\ sent < MaxSignals /\ sent' = sent + 1 /\ Len(handler) < 2
    /\ hist' = Append(hist, [op |-> "signal", at |-> pc, depth |-> Len(handler)])
    /\ IF pc = "wait" /\ handler = <<>> THEN pc' = "woken" /\ UNCHANGED handler ELSE handler' = Append(handler, "try") /\ UNCHANGED pc
    /\ UNCHANGED <<broken, job, ending, lock, flag, alarm, alive, result>>
End ==      \* a job that completes has sent its signal
    /\ alive /\ job.n <= NJobs /\ job.state = Running /\ (ending = "COMPLETED" => sent > 0)
    /\ job' = [job EXCEPT !.state = ending] /\ hist' = Append(hist, [op |-> "end", at |-> pc, ends |-> ending])
    /\ UNCHANGED <<broken, ending, sent, pc, handler, lock, flag, alarm, alive, result>>
Forget ==   \* after a while the batch system does not know a job any more (a completed one is polled before)
    /\ alive /\ job.state = "FAILED" /\ job' = [job EXCEPT !.state = "unknown"]
    /\ UNCHANGED <<broken, ending, sent, pc, handler, lock, flag, alarm, alive, result, hist>>
Break ==    \* the batch system cannot be asked (until this wait is over)
    /\ alive /\ job.n <= NJobs /\ broken.times < MaxBreaks /\ ~ broken.now /\ pc \in {"look", "wait", "poll"}
    /\ broken' = [now |-> TRUE, times |-> broken.times + 1] /\ hist' = Append(hist, [op |-> "break", at |-> pc])
    /\ UNCHANGED <<job, ending, sent, pc, handler, lock, flag, alarm, alive, result>>
Alarm ==
    /\ alive /\ alarm /\ alarm' = FALSE
    /\ IF pc = "wait" /\ handler = <<>> THEN pc' = "woken" /\ UNCHANGED alive
       ELSE alive' = Safe /\ UNCHANGED pc
    /\ UNCHANGED <<broken, job, ending, sent, handler, lock, flag, result, hist>>
\* ---- the handler, possibly interrupted by a second signal
Top == handler[Len(handler)]
Pop == SubSeq(handler, 1, Len(handler) - 1)
Handle ==
    /\ alive /\ handler # <<>>
    /\ CASE Top = "try" /\ lock = "free" -> lock' = "handler" /\ handler' = Append(Pop, "store") /\ UNCHANGED <<flag, alarm>>
         [] Top = "try" /\ lock # "free" -> flag' = TRUE /\ alarm' = TRUE /\ handler' = Pop /\ UNCHANGED lock
         [] Top = "store" -> flag' = TRUE /\ handler' = Append(Pop, "release") /\ UNCHANGED <<lock, alarm>>
         [] OTHER -> lock' = "free" /\ handler' = Pop /\ UNCHANGED <<flag, alarm>>
    /\ UNCHANGED <<broken, job, ending, sent, pc, alive, result, hist>>
\* ---- the main program; it runs when no handler does
Step(from, to) == alive /\ handler = <<>> /\ pc = from /\ pc' = to
Known == job.state # "unknown" /\ ~ broken.now
Look == Step("look", IF Known THEN "acquire" ELSE "raise") /\ UNCHANGED <<broken, job, ending, sent, handler, lock, flag, alarm, alive, result, hist>>
Acquire == Step("acquire", "test") /\ lock = "free" /\ lock' = "main" /\ UNCHANGED <<broken, job, ending, sent, handler, flag, alarm, alive, result, hist>>
Test == Step("test", IF flag THEN "woken" ELSE "wait") /\ UNCHANGED <<broken, job, ending, sent, handler, lock, flag, alarm, alive, result, hist>>
Wait == /\ Patient
        /\ Step("wait", IF broken.now THEN "raise" ELSE IF job.state \in {"COMPLETED", "unknown"} THEN "woken" ELSE "wait")
        /\ lock' = (IF broken.now /\ Tidy THEN "free" ELSE lock)
        /\ UNCHANGED <<broken, job, ending, sent, handler, flag, alarm, alive, result, hist>>
Release == Step("woken", "poll") /\ lock' = "free" /\ UNCHANGED <<broken, job, ending, sent, handler, flag, alarm, alive, result, hist>>
Poll == Step("poll", IF job.state = "COMPLETED" /\ ~ broken.now THEN "return" ELSE IF Known THEN "poll" ELSE "raise") /\ UNCHANGED <<broken, job, ending, sent, handler, lock, flag, alarm, alive, result, hist>>
Done == /\ alive /\ handler = <<>> /\ pc \in {"return", "raise"} /\ result' = Append(result, pc) 
        /\ IF job.n < NJobs THEN /\ job' = [n |-> job.n + 1, state |-> Running] /\ ending' \in Endings /\ sent' = 0 /\ pc' = "look"
                                 /\ hist' = Append(hist, [op |-> "job", ends |-> ending'])
           ELSE job' = [n |-> job.n + 1, state |-> "unknown"] /\ pc' = "end" /\ UNCHANGED <<sent, ending, hist>>
        /\ broken' = [broken EXCEPT !.now = FALSE]
        /\ UNCHANGED <<handler, lock, flag, alarm, alive>>
Main == Look \/ Acquire \/ Test \/ Wait \/ Release \/ Poll \/ Done
Next == Signal \/ Break \/ End \/ Forget \/ Alarm \/ Handle \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Handle) /\ WF_vars(Alarm) /\ WF_vars(End) /\ WF_vars(Forget) /\ WF_vars(Signal)
View == <<job, ending, sent, broken, pc, handler, lock, flag, alarm, alive, result>>
\* ---- properties
NeverKilled == alive
LockDiscipline == (lock = "main") <=> pc \in {"test", "wait", "woken"}
ReturnsAreRight == pc = "return" => job.state = "COMPLETED"
RaisesAreRight == pc = "raise" => job.state = "unknown" \/ broken.now
Ends == <>(pc = "end" \/ ~ alive)
\* schedules for the replay: how the jobs end, and where the signals arrived
Emit == pc = "end" => PrintT("@@" \o ToJson([hist |-> hist, result |-> result]))
=============================================================================
