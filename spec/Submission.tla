----------------------------- MODULE Submission -----------------------------
(***************************************************************************)
(* Submitting calculations to a batch system (P06): several submission     *)
(* objects live in one process, each is submitted any number of times; the *)
(* jobs run in any order and their samples add up.                         *)
(***************************************************************************)
EXTENDS SubmissionOps, Json
CONSTANTS Requests, MaxJob, MaxObjects, MaxSubmits, RunJobs
VARIABLES objs, queue, drawn, hist
vars == <<objs, queue, drawn, hist>>
Init == objs = <<>> /\ queue = {} /\ drawn = <<>> /\ hist = <<>>
Create(p) == /\ Len(objs) < MaxObjects
             /\ objs' = Append(objs, p) /\ hist' = Append(hist, [op |-> "create", obj |-> Len(objs) + 1, p |-> p])
             /\ UNCHANGED <<queue, drawn>>
Submits == Cardinality({i \in 1..Len(hist) : hist[i].op = "submit"})
Submit(o) ==
    /\ Submits < MaxSubmits
    /\ hist' = Append(hist, [op |-> "submit", obj |-> o])
    /\ queue' = queue \cup (IF Valid(objs[o], MaxJob)
                             THEN {[s |-> Submits + 1, obj |-> o, T |-> T, P |-> P, i |-> i] : T \in Range1(objs[o].Ts), P \in Range1(objs[o].Ps), i \in 1..Jobs(objs[o], MaxJob)}
                             ELSE {})
    /\ UNCHANGED <<objs, drawn>>
Run(j) == /\ RunJobs /\ queue' = queue \ {j}
          /\ LET k == <<j.s, j.T, j.P>>
                 X == PerJob(objs[j.obj], MaxJob)
             IN  drawn' = [x \in DOMAIN drawn \cup {k} |-> IF x = k THEN (IF k \in DOMAIN drawn THEN drawn[k] ELSE 0) + X ELSE drawn[x]]
          /\ UNCHANGED <<objs, hist>>
Next == (\E p \in Requests : Create(p)) \/ (\E o \in 1..Len(objs) : Submit(o)) \/ (\E j \in queue : Run(j))
Spec == Init /\ [][Next]_vars
\* ---- properties: when the queue is empty every combination has enough samples, but not a job too many
AsJobs(p, s) == [i \in 1..Jobs(p, MaxJob) |-> [X |-> PerJob(p, MaxJob), blocks |-> PerJob(p, MaxJob) \div p.block, block |-> p.block, A |-> p.A, N |-> p.N, D |-> p.D, R |-> p.R]]
Enough == (queue = {} /\ RunJobs) => \A k \in DOMAIN drawn : \E o \in 1..Len(objs) : drawn[k] >= Total(objs[o]) /\ drawn[k] < Total(objs[o]) + PerJob(objs[o], MaxJob)
\* the division of the specification passes its own verdict
DivisionIsRight == \A o \in 1..Len(objs) : LET p == objs[o] IN
    Valid(p, MaxJob) => VerdictSubmission([p |-> [p EXCEPT !.Ts = <<30000>>, !.Ps = <<3>>], max |-> MaxJob, raised |-> 0,
        jobs |-> [i \in 1..Jobs(p, MaxJob) |-> [X |-> PerJob(p, MaxJob), blocks |-> PerJob(p, MaxJob) \div p.block, block |-> p.block, T |-> 30000, P |-> 3, A |-> p.A, N |-> p.N, D |-> p.D, R |-> p.R,
                                                        dB |-> p.dB, cpu |-> p.cpu, mem |-> p.mem, part |-> Partition(p)]]]) = ""
Emit == (hist # <<>> /\ hist[Len(hist)].op = "submit" /\ Submits = MaxSubmits) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
