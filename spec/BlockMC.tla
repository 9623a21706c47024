------------------------------ MODULE BlockMC ------------------------------
(* Design of the block cache: local copies, content-addressed objects with
   reference counts, asynchronous uploads and removals (C03, C04, C24).
   One action per critical section of block_cache.py (between two suspension
   points); each block's lock is held across hashing and uploading.
   Contents are numbers, 0 being a hole.                                      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Blocks, Vals, MaxObj, MaxOps, MaxFail,
          Wait        \* a block linked to an object in flight stays in the cache until it has arrived
VARIABLES cur,        \* what a reader must see
          file,       \* local copy (None: not cached)
          dirty, lock, map, row, fly, store, pend, delq, nobj, nops, nfail
vars == <<cur, file, dirty, lock, map, row, fly, store, pend, delq, nobj, nops, nfail>>
None == 99
Objs == 1 .. MaxObj
NoRow == [ref |-> 0, hash |-> 0, phys |-> FALSE]

Init == /\ cur = [b \in Blocks |-> 0] /\ file = [b \in Blocks |-> None] /\ dirty = [b \in Blocks |-> FALSE]
        /\ lock = [b \in Blocks |-> "free"] /\ map = [b \in Blocks |-> 0]
        /\ row = [o \in Objs |-> NoRow] /\ fly = {} /\ store = [o \in Objs |-> 0]
        /\ pend = <<>> /\ delq = {} /\ nobj = 0 /\ nops = 0 /\ nfail = 0

\* content that an access to block b finds (downloading it if necessary)
Loaded(b) == IF file[b] # None THEN file[b] ELSE IF map[b] = 0 THEN 0 ELSE store[map[b]]
CanLoad(b) == lock[b] = "free" /\ (file[b] # None \/ map[b] = 0 \/ map[b] \notin fly)
Count == nops < MaxOps /\ nops' = nops + 1

Write(b, v) == /\ Count /\ CanLoad(b)
               /\ file' = [file EXCEPT ![b] = v] /\ dirty' = [dirty EXCEPT ![b] = TRUE] /\ cur' = [cur EXCEPT ![b] = v]
               /\ UNCHANGED <<lock, map, row, fly, store, pend, delq, nobj, nfail>>
Read(b) == /\ Count /\ CanLoad(b) /\ file[b] = None
           /\ file' = [file EXCEPT ![b] = Loaded(b)]
           /\ UNCHANGED <<cur, dirty, lock, map, row, fly, store, pend, delq, nobj, nfail>>
BeginHash(b) == /\ lock[b] = "free" /\ file[b] # None /\ dirty[b]
                /\ lock' = [lock EXCEPT ![b] = "hash"]
                /\ UNCHANGED <<cur, file, dirty, map, row, fly, store, pend, delq, nobj, nops, nfail>>
Old(b) == IF map[b] = 0 THEN pend ELSE Append(pend, map[b])
Same(v) == {o \in Objs : row[o].ref > 0 /\ row[o].hash = v}
Register(b) ==
    /\ lock[b] = "hash"
    /\ IF Same(file[b]) # {}
       THEN LET o == CHOOSE x \in Same(file[b]) : TRUE IN
            /\ IF map[b] = o THEN UNCHANGED <<map, row, pend>>
               ELSE /\ row' = [row EXCEPT ![o].ref = @ + 1] /\ map' = [map EXCEPT ![b] = o] /\ pend' = Old(b)
            /\ IF Wait /\ o \in fly THEN lock' = [lock EXCEPT ![b] = "wait"] /\ UNCHANGED dirty
               ELSE lock' = [lock EXCEPT ![b] = "free"] /\ dirty' = [dirty EXCEPT ![b] = FALSE]
            /\ UNCHANGED <<fly, nobj>>
       ELSE /\ nobj < MaxObj /\ nobj' = nobj + 1
            /\ row' = [row EXCEPT ![nobj + 1] = [ref |-> 1, hash |-> file[b], phys |-> FALSE]]
            /\ map' = [map EXCEPT ![b] = nobj + 1] /\ pend' = Old(b)
            /\ fly' = fly \cup {nobj + 1} /\ lock' = [lock EXCEPT ![b] = "up"] /\ UNCHANGED dirty
    /\ UNCHANGED <<cur, file, store, delq, nops, nfail>>
Waited(b) == /\ lock[b] = "wait" /\ map[b] \notin fly
             /\ lock' = [lock EXCEPT ![b] = "free"] /\ dirty' = [dirty EXCEPT ![b] = row[map[b]].hash = 0]
             /\ UNCHANGED <<cur, file, map, row, fly, store, pend, delq, nobj, nops, nfail>>
Uploaded(b) == /\ lock[b] = "up"
               /\ store' = [store EXCEPT ![map[b]] = file[b]] /\ row' = [row EXCEPT ![map[b]].phys = TRUE]
               /\ fly' = fly \ {map[b]} /\ dirty' = [dirty EXCEPT ![b] = FALSE] /\ lock' = [lock EXCEPT ![b] = "free"]
               /\ UNCHANGED <<cur, file, map, pend, delq, nobj, nops, nfail>>
UploadFailed(b) == /\ lock[b] = "up" /\ nfail < MaxFail /\ nfail' = nfail + 1
                   /\ row' = [row EXCEPT ![map[b]].hash = 0] /\ fly' = fly \ {map[b]} /\ lock' = [lock EXCEPT ![b] = "free"]
                   /\ UNCHANGED <<cur, file, dirty, map, store, pend, delq, nobj, nops>>
\* dropping a reference; the last one removes the row and schedules the object for deletion
Deref == \E k \in DOMAIN pend :
    LET o == pend[k] IN
    /\ pend' = [j \in 1 .. Len(pend) - 1 |-> IF j < k THEN pend[j] ELSE pend[j + 1]]
    /\ IF row[o].ref > 1 THEN row' = [row EXCEPT ![o].ref = @ - 1] /\ UNCHANGED delq
       ELSE /\ o \notin fly   \* otherwise waits for the upload first
            /\ delq' = IF row[o].phys THEN delq \cup {o} ELSE delq
            /\ row' = [row EXCEPT ![o] = NoRow]
    /\ UNCHANGED <<cur, file, dirty, lock, map, fly, store, nobj, nops, nfail>>
Delete(o) == /\ o \in delq /\ delq' = delq \ {o} /\ store' = [store EXCEPT ![o] = 0]
             /\ UNCHANGED <<cur, file, dirty, lock, map, row, fly, pend, nobj, nops, nfail>>
Evict(b) == /\ file[b] # None /\ ~dirty[b] /\ lock[b] = "free" /\ file' = [file EXCEPT ![b] = None]
            /\ UNCHANGED <<cur, dirty, lock, map, row, fly, store, pend, delq, nobj, nops, nfail>>
Remove(b) == /\ Count /\ lock[b] = "free"
             /\ cur' = [cur EXCEPT ![b] = 0] /\ file' = [file EXCEPT ![b] = None] /\ dirty' = [dirty EXCEPT ![b] = FALSE]
             /\ map' = [map EXCEPT ![b] = 0] /\ pend' = Old(b)
             /\ UNCHANGED <<lock, row, fly, store, delq, nobj, nfail>>
Next == \/ \E b \in Blocks : Read(b) \/ BeginHash(b) \/ Register(b) \/ Waited(b) \/ Uploaded(b) \/ UploadFailed(b) \/ Evict(b) \/ Remove(b)
        \/ \E b \in Blocks, v \in Vals : Write(b, v)
        \/ Deref \/ \E o \in Objs : Delete(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Deref) /\ WF_vars(\E o \in Objs : Delete(o))
             /\ \A b \in Blocks : WF_vars(Register(b)) /\ WF_vars(Waited(b)) /\ WF_vars(Uploaded(b))

Stored(b) == IF map[b] = 0 THEN 0 ELSE store[map[b]]
NoLoss == \A b \in Blocks : IF file[b] # None THEN file[b] = cur[b] ELSE Stored(b) = cur[b]
CleanIsStored == \A b \in Blocks : file[b] # None /\ ~dirty[b] => Stored(b) = cur[b]
NPend(o) == Cardinality({k \in DOMAIN pend : pend[k] = o})
RefExact == \A o \in Objs : row[o].ref = Cardinality({b \in Blocks : map[b] = o}) + NPend(o)
DelSafe == \A o \in delq : row[o].ref = 0 /\ \A b \in Blocks : map[b] # o
Unique == \A o, p \in Objs : row[o].ref > 0 /\ row[p].ref > 0 /\ row[o].hash = row[p].hash /\ row[o].hash # 0 => o = p
Quiet == pend = <<>> /\ delq = {} /\ fly = {} /\ \A b \in Blocks : lock[b] = "free"
NoLeak == Quiet => {o \in Objs : store[o] # 0} = {o \in Objs : row[o].ref > 0 /\ row[o].phys}
Drains == []<>(pend = <<>> /\ delq = {})
=============================================================================
