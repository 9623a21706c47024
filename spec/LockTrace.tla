----------------------------- MODULE LockTrace ------------------------------
(* Judges recorded executions of the real key locks.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, w, bad
vars == <<l, w, bad>>
Held(k) == {t \in DOMAIN w.hold : w.hold[t] = k}
Waits(k) == {t \in DOMAIN w.wait : w.wait[t] = k}
Put(f, t, v) == [f EXCEPT ![t] = v]
Step(e) ==
    CASE e.op = "init" -> [w |-> [hold |-> [t \in 1 .. e.tasks |-> ""], wait |-> [t \in 1 .. e.tasks |-> ""], busy |-> [t \in 1 .. e.tasks |-> FALSE]], bad |-> ""]
      \* acquire has been called / has returned / has been given up
      [] e.op = "want" -> [w |-> [w EXCEPT !.wait = Put(@, e.t, e.k), !.busy = Put(@, e.t, TRUE)], bad |-> ""]
      [] e.op = "got" -> [w |-> [w EXCEPT !.wait = Put(@, e.t, ""), !.hold = Put(@, e.t, e.k), !.busy = Put(@, e.t, FALSE)],
                          bad |-> IF Held(e.k) # {} THEN "two holders of one key" ELSE IF w.wait[e.t] # e.k THEN "lock obtained after giving up" ELSE ""]
      [] e.op = "gaveup" -> [w |-> [w EXCEPT !.wait = Put(@, e.t, ""), !.busy = Put(@, e.t, FALSE)], bad |-> ""]
      \* from the moment release is called others may get the lock
      [] e.op = "release" -> [w |-> [w EXCEPT !.hold = Put(@, e.t, ""), !.busy = Put(@, e.t, TRUE)], bad |-> IF w.hold[e.t] # e.k THEN "released lock is not held" ELSE ""]
      [] e.op = "released" -> [w |-> [w EXCEPT !.busy = Put(@, e.t, FALSE)], bad |-> ""]
      [] e.op = "nowait" ->
            [w |-> IF e.ok THEN [w EXCEPT !.hold = Put(@, e.t, e.k)] ELSE w,
             bad |-> IF e.ok /\ Held(e.k) # {} THEN "two holders of one key"
                     \* may fail spuriously only while another call is in progress
                     ELSE IF ~e.ok /\ Held(e.k) = {} /\ ~\E t \in DOMAIN w.busy : w.busy[t] THEN "free lock not obtained" ELSE ""]
      [] e.op = "quiet" -> [w |-> w, bad |-> IF \E t \in DOMAIN w.wait : w.wait[t] # "" /\ Held(w.wait[t]) = {} THEN "waiter left behind although the lock is free"
                                             ELSE IF \E t \in DOMAIN w.busy : w.busy[t] /\ w.wait[t] = "" THEN "release never returns" ELSE ""]
      [] OTHER -> [w |-> w, bad |-> "operation failed"]
Init == l = 1 /\ w = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l]) IN w' = r.w /\ bad' = r.bad
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
