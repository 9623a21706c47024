------------------------------- MODULE PipeMC -------------------------------
(* Parallel run over a list of jobs: one producer, a bounded channel, workers (C23). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NJobs, NWorkers, Buffer, CanFail
VARIABLES next,     \* next job to produce (NJobs + 1: producer has closed the channel)
          chan, work, started, done, failed, ret
vars == <<next, chan, work, started, done, failed, ret>>
Workers == 1 .. NWorkers
Idle == {x \in Workers : work[x] = 0}
Init == next = 1 /\ chan = <<>> /\ work = [x \in Workers |-> 0] /\ started = <<>> /\ done = {} /\ failed = FALSE /\ ret = "running"
Gone == 1000
\* a job is handed over directly to a waiting worker or put into the buffer
Produce == /\ ~failed /\ next <= NJobs
           /\ Len(chan) < Buffer \/ Idle # {}
           /\ chan' = Append(chan, next) /\ next' = next + 1 /\ UNCHANGED <<work, started, done, failed, ret>>
ProducerFails == CanFail /\ ~failed /\ next <= NJobs /\ failed' = TRUE /\ UNCHANGED <<next, chan, work, started, done, ret>>
\* handing a job to a worker and the worker starting on it are separate steps
Hand == 100
Take(x) == /\ ~failed /\ work[x] = 0 /\ chan # <<>>
           /\ work' = [work EXCEPT ![x] = Hand + Head(chan)] /\ chan' = Tail(chan)
           /\ UNCHANGED <<next, started, done, failed, ret>>
Begin(x) == /\ work[x] \in Hand + 1 .. Hand + NJobs
            /\ work' = [work EXCEPT ![x] = @ - Hand] /\ started' = Append(started, work[x] - Hand)
            /\ UNCHANGED <<next, chan, done, failed, ret>>
Finish(x) == work[x] \in 1 .. NJobs /\ work' = [work EXCEPT ![x] = 0] /\ done' = done \cup {work[x]} /\ UNCHANGED <<next, chan, started, failed, ret>>
Fail(x) == CanFail /\ work[x] \in 1 .. NJobs /\ failed' = TRUE /\ work' = [work EXCEPT ![x] = Gone] /\ UNCHANGED <<next, chan, started, done, ret>>
Cancelled(x) == failed /\ work[x] # Gone /\ work' = [work EXCEPT ![x] = Gone] /\ UNCHANGED <<next, chan, started, done, failed, ret>>
Leave(x) == next > NJobs /\ chan = <<>> /\ work[x] = 0 /\ work' = [work EXCEPT ![x] = Gone] /\ UNCHANGED <<next, chan, started, done, failed, ret>>
Return == ret = "running" /\ (\A x \in Workers : work[x] = Gone) /\ ret' = (IF failed THEN "error" ELSE "ok") /\ UNCHANGED <<next, chan, work, started, done, failed>>
Next == Produce \/ ProducerFails \/ Return \/ \E x \in Workers : Take(x) \/ Begin(x) \/ Finish(x) \/ Fail(x) \/ Cancelled(x) \/ Leave(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A i, j \in DOMAIN started : started[i] = started[j] => i = j
Complete == ret = "ok" => done = 1 .. NJobs
NoneRunning == ret # "running" => \A x \in Workers : work[x] = Gone
\* after a failure only jobs that had been handed over may still begin
NoStartAfterFailure == [][failed => \A x \in Workers : work'[x] \in 1 .. NJobs => work[x] \in {work'[x], Hand + work'[x]}]_vars
Ends == <>(ret # "running")
=============================================================================
