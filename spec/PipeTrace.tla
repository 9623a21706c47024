------------------------------ MODULE PipeTrace ------------------------------
(* Judges recorded runs of the real parallel job runners.
   slack: jobs that may still begin after a failure, because they were being
   handed to workers at that moment.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, w, bad
vars == <<l, w, bad>>
Set(s) == {s[x] : x \in DOMAIN s}
\* raised for the producer when no worker is left to take a job: may accompany the worker's failure, not replace it
Secondary == {"BrokenResourceError"}
Step(e) ==
    CASE e.op = "init" -> [w |-> [n |-> e.n, started |-> {}, running |-> {}, done |-> {}, failed |-> FALSE, failures |-> {}, jobs |-> e.jobs, over |-> FALSE, slack |-> 0], bad |-> ""]
      [] e.op = "start" -> [w |-> [w EXCEPT !.started = @ \cup {e.j}, !.running = @ \cup {e.j}, !.slack = IF w.failed THEN @ - 1 ELSE @],
                            bad |-> IF e.j \in w.started THEN "job processed twice"
                                    ELSE IF e.j \notin 1 .. w.jobs THEN "unknown job"
                                    ELSE IF w.over THEN "job started after the run returned"
                                    ELSE IF w.failed /\ w.slack <= 0 THEN "job started after a failure"
                                    ELSE IF Cardinality(w.running) >= w.n THEN "more jobs in progress than workers requested" ELSE ""]
      [] e.op = "end" -> [w |-> [w EXCEPT !.running = @ \ {e.j}, !.done = @ \cup {e.j}], bad |-> IF w.over THEN "run returned before a job was finished" ELSE ""]
      [] e.op = "cancelled" -> [w |-> [w EXCEPT !.running = @ \ {e.j}], bad |-> IF ~w.failed THEN "job cancelled without a failure" ELSE ""]
      [] e.op = "fail" -> [w |-> [w EXCEPT !.running = @ \ {e.j}, !.failed = TRUE, !.slack = IF w.failed THEN @ ELSE w.n, !.failures = @ \cup {e.x}], bad |-> ""]
      [] e.op = "stop" -> [w |-> [w EXCEPT !.failed = TRUE, !.slack = IF w.failed THEN @ ELSE w.n, !.failures = @ \cup {e.x}], bad |-> ""]      \* producer fails / caller cancels
      \* run returned: error is the list of exceptions reported
      [] e.op = "return" ->
            [w |-> [w EXCEPT !.over = TRUE],
             bad |-> IF w.running # {} THEN "run returned before a job was finished"
                     ELSE IF e.ok /\ w.failures \ {"Cancelled"} # {} THEN "failure not reported"
                     ELSE IF e.ok /\ w.done # 1 .. w.jobs THEN "job never processed"
                     ELSE IF ~e.ok /\ ~w.failed THEN "failure reported although nothing failed"
                     ELSE IF ~e.ok /\ LET r == Set(e.errors) \ Secondary IN r = {} \/ ~(r \subseteq w.failures) THEN "wrong failure reported"
                     ELSE IF e.finalized # e.ok THEN "finalization does not match the outcome"
                     ELSE IF e.rest # <<0>> /\ Set(e.rest) # (1 .. w.jobs) \ w.done THEN "completed jobs accounted for wrongly" ELSE ""]
      [] OTHER -> [w |-> w, bad |-> "operation failed"]
Init == l = 1 /\ w = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l]) IN w' = r.w /\ bad' = r.bad
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
