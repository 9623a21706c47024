------------------------------ MODULE FsTrace ------------------------------
(* Judges recorded executions of the real request handlers (one JSON event per
   request, many executions per file, each starting with an "init" event).     *)
EXTENDS FsModel, DbModel, Json
CONSTANT Judge     \* which clauses are judged: "reply", "cons", "store", "abs", "fsck"
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, bad
vars == <<l, st, bad>>

Step(s, e) ==
    IF e.op = "init" THEN [st |-> InitState(e), bad |-> ""]
    ELSE IF e.op = "request" THEN [st |-> s, bad |-> "request handler failed"]
    ELSE IF e.op = "exception" THEN [st |-> s, bad |-> "request handler failed"]
    ELSE IF e.op = "dump" THEN [st |-> s, bad |-> DumpVerdict(s, e, Judge)]
    ELSE IF e.op = "fsck" THEN [st |-> s, bad |-> IF "fsck" \in Judge /\ e.errors THEN "file system check finds errors" ELSE ""]
    ELSE LET r == DoOp(s, e)
         IN [st |-> r.st, bad |-> IF "reply" \notin Judge \/ SameReply(e, r.res) THEN "" ELSE "reply differs from model"]

Init == l = 1 /\ st = [ino |-> <<>>] /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(st, Trace[l]) IN st' = r.st /\ bad' = r.bad
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
