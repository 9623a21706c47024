----------------------------- MODULE BlockTrace -----------------------------
(* Judges recorded executions of the real block cache under concurrency.
   Blocks are named by strings; contents by numbers (0 = hole / only zeros,
   -1 = not available).  cur[k] is the set of contents a reader of block k may
   see now: a singleton except while a removal of k is in progress.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Judge     \* clauses judged: "data" (C03), "objects" (C04), "usage" (C24)
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, w, bad
vars == <<l, w, bad>>
Set(s) == {s[x] : x \in DOMAIN s}
Has(e, f) == f \in DOMAIN e

World(e) == [keys |-> Set(e.keys), cur |-> [k \in Set(e.keys) |-> {0}], busy |-> [t \in 1 .. e.tasks |-> {}],
             since |-> [t \in 1 .. e.tasks |-> <<>>], lim |-> e.lim]
\* block k now has (or may have) content v: also recorded for the flushes in progress
Note(s, k, v) == [t \in DOMAIN s |-> IF s[t] = <<>> THEN s[t] ELSE [s[t] EXCEPT ![k] = @ \cup {v}]]

(* --- what a snapshot of metadata, backend and cache directory shows --- *)
MapOf(d, k) == LET m == {x \in Set(d.map) : x.k = k} IN IF m = {} THEN 0 ELSE (CHOOSE x \in m : TRUE).o
RowIds(d) == {x.id : x \in Set(d.rows)}
Row(d, o) == CHOOSE x \in Set(d.rows) : x.id = o
StoreVal(d, o) == LET m == {x \in Set(d.store) : x.id = o} IN IF m = {} THEN -1 ELSE (CHOOSE x \in m : TRUE).v
StoreIds(d) == {x.id : x \in Set(d.store)}
Stored(d, k) == LET o == MapOf(d, k) IN IF o = 0 THEN 0 ELSE StoreVal(d, o)
Files(d, k) == {x.v : x \in {y \in Set(d.files) : y.k = k}}
NRefs(d, o) == Cardinality({x \in Set(d.map) : x.o = o})

\* the content of every block can be obtained: from the local copy if there is one, else from the backend
DataClause(d) ==
    IF \E k \in w.keys : ~((IF Files(d, k) # {} THEN Files(d, k) ELSE {Stored(d, k)}) \subseteq w.cur[k])
    THEN "content of a block is lost" ELSE ""
ObjectClause(d) ==
    IF \E m \in Set(d.map) : m.o \notin RowIds(d) THEN "block refers to a removed object"
    ELSE IF \E r \in Set(d.rows) : r.ref < NRefs(d, r.id) THEN "reference count too small"
    ELSE IF \E r \in Set(d.rows) : r.phys > 0 /\ r.id \notin StoreIds(d) THEN "referenced object is not in the backend"
    ELSE IF \E r \in Set(d.rows) : r.hash # -1 /\ r.id \in StoreIds(d) /\ StoreVal(d, r.id) # r.hash THEN "object has other contents than recorded"
    ELSE IF \E r, q \in Set(d.rows) : r.id # q.id /\ r.hash # -1 /\ r.raw = q.raw THEN "equal contents do not share one object"
    ELSE IF ~d.quiet THEN ""
    ELSE IF \E r \in Set(d.rows) : r.ref # NRefs(d, r.id) \/ r.ref = 0 THEN "reference count wrong"
    ELSE IF StoreIds(d) # RowIds(d) THEN "objects in backend and metadata differ"
    ELSE ""
UsageClause(d) ==
    IF d.usage[1] > w.lim.entries + w.lim.tasks \/ d.usage[2] > w.lim.size + w.lim.tasks * w.lim.bs THEN "cache exceeds its limits"
    ELSE IF ~d.quiet THEN ""
    ELSE IF d.usage[1] # Len(d.files) THEN "number of cache entries wrong"
    ELSE IF d.usage[2] # d.bytes THEN "cache size wrong"
    ELSE IF d.usage[3] < Cardinality({f \in Set(d.files) : f.v # Stored(d, f.k)}) THEN "block counted as clean that is not stored"
    ELSE IF d.clean /\ (d.usage[3] # 0 \/ d.usage[4] # 0) THEN "block counted as dirty after flush"
    ELSE ""
SnapClause(d) ==
    LET a == IF "data" \in Judge THEN DataClause(d) ELSE ""
        b == IF "objects" \in Judge THEN ObjectClause(d) ELSE ""
        c == IF "usage" \in Judge /\ ~d.crash THEN UsageClause(d) ELSE ""
    IN IF a # "" THEN a ELSE IF b # "" THEN b ELSE c
\* a flush that returned: everything written before it started is in the backend
FlushClause(e) ==
    IF "data" \notin Judge THEN ""
    ELSE IF e.kind = "start" THEN
        IF \E k \in Set(e.keys) : ~((LET o == MapOf(e.snap, k) IN IF o = 0 THEN {0} ELSE IF o \in RowIds(e.snap) THEN {Row(e.snap, o).hash} ELSE {-3})
                                     \subseteq w.since[e.t][k] \cup {-1}) THEN "block not registered after start of flush" ELSE ""
    ELSE IF \E k \in Set(e.keys) : Stored(e.snap, k) \notin w.since[e.t][k] THEN "flushed block is not in the backend"
    ELSE ""

Step(e) ==
    CASE e.op = "init" -> [w |-> World(e), bad |-> ""]
      [] e.op = "acc" -> [w |-> IF e.new = -1 THEN w ELSE [w EXCEPT !.cur[e.k] = {e.new}, !.since = Note(@, e.k, e.new)],
                          bad |-> IF "data" \in Judge /\ e.val \notin w.cur[e.k] THEN "read returns wrong content" ELSE ""]
      [] e.op = "accerr" -> [w |-> w, bad |-> IF e.injected THEN "" ELSE "access to a block failed"]
      [] e.op = "rmcall" -> [w |-> [w EXCEPT !.busy[e.t] = Set(e.keys),
                                             !.cur = [k \in w.keys |-> IF k \in Set(e.keys) THEN w.cur[k] \cup {0} ELSE w.cur[k]],
                                             !.since = [t \in DOMAIN w.since |-> IF w.since[t] = <<>> THEN <<>> ELSE
                                                          [k \in w.keys |-> w.since[t][k] \cup (IF k \in Set(e.keys) THEN {0} ELSE {})]]],
                             bad |-> ""]
      [] e.op = "rmret" -> [w |-> [w EXCEPT !.busy[e.t] = {}, !.cur = [k \in w.keys |-> IF k \in w.busy[e.t] THEN {0} ELSE w.cur[k]]], bad |-> ""]
      [] e.op = "flcall" -> [w |-> [w EXCEPT !.since[e.t] = w.cur], bad |-> ""]
      [] e.op = "flret" -> [w |-> [w EXCEPT !.since[e.t] = <<>>], bad |-> FlushClause(e)]
      [] e.op = "snap" -> [w |-> w, bad |-> SnapClause(e)]
      [] e.op = "del" -> [w |-> w, bad |-> IF "objects" \in Judge /\ (e.id \in RowIds(e.snap) \/ NRefs(e.snap, e.id) > 0)
                                            THEN "object deleted that is still referenced" ELSE ""]
      \* blocks just used stay in the cache while it is within its limits
      [] e.op = "kept" -> [w |-> w, bad |-> IF "usage" \in Judge /\ ~(Set(e.keys) \subseteq {f.k : f \in Set(e.files)})
                                             THEN "block dropped although the cache is within its limits" ELSE ""]
      [] e.op = "stuck" -> [w |-> w, bad |-> "operations never finish"]
      [] OTHER -> [w |-> w, bad |-> "operation failed"]

Init == l = 1 /\ w = [keys |-> {}] /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l]) IN w' = r.w /\ bad' = r.bad
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
