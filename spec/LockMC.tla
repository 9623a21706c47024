------------------------------- MODULE LockMC -------------------------------
(* Locks by key (multi_lock.py): a task waits until nobody holds its key; every
   release wakes all waiters, which then look again (C21).                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Tasks, Keys, Depth, Hist
VARIABLES st,     \* task -> "idle" | "try" (about to look) | "sleep" | "hold"
          key,    \* task -> key it wants or holds
          hist
vars == <<st, key, hist>>
Log(r) == hist' = IF Hist THEN Append(hist, r) ELSE hist
Go == ~Hist \/ Len(hist) < Depth
Held(k) == \E t \in Tasks : st[t] = "hold" /\ key[t] = k
Init == st = [t \in Tasks |-> "idle"] /\ key = [t \in Tasks |-> CHOOSE k \in Keys : TRUE] /\ hist = <<>>

Acquire(t, k) == st[t] = "idle" /\ Go /\ st' = [st EXCEPT ![t] = "try"] /\ key' = [key EXCEPT ![t] = k] /\ Log([a |-> "acquire", t |-> t, k |-> k])
Nowait(t, k) == st[t] = "idle" /\ Go /\ st' = [st EXCEPT ![t] = IF Held(k) THEN "idle" ELSE "hold"]
                /\ key' = [key EXCEPT ![t] = k] /\ Log([a |-> "nowait", t |-> t, k |-> k])
Look(t) == st[t] = "try" /\ st' = [st EXCEPT ![t] = IF Held(key[t]) THEN "sleep" ELSE "hold"] /\ Log([a |-> "run", t |-> t, k |-> key[t]]) /\ UNCHANGED key
Wake(t) == [u \in Tasks |-> IF u = t THEN "idle" ELSE IF st[u] = "sleep" THEN "try" ELSE st[u]]
Release(t) == st[t] = "hold" /\ Go /\ st' = Wake(t) /\ Log([a |-> "release", t |-> t, k |-> key[t]]) /\ UNCHANGED key
Cancel(t) == st[t] \in {"try", "sleep"} /\ Go /\ st' = [st EXCEPT ![t] = "idle"] /\ Log([a |-> "cancel", t |-> t, k |-> key[t]]) /\ UNCHANGED key
\* a task that is cancelled while holding the lock releases it on its way out
CancelHolder(t) == st[t] = "hold" /\ Go /\ st' = Wake(t) /\ Log([a |-> "cancelhold", t |-> t, k |-> key[t]]) /\ UNCHANGED key
Next == \E t \in Tasks : \/ \E k \in Keys : Acquire(t, k) \/ Nowait(t, k)
                         \/ Look(t) \/ Release(t) \/ Cancel(t) \/ CancelHolder(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Tasks : WF_vars(Look(t))

Mutex == \A t, u \in Tasks : st[t] = "hold" /\ st[u] = "hold" /\ key[t] = key[u] => t = u
NoLostWakeup == \A t \in Tasks : st[t] = "sleep" => Held(key[t])
\* a waiter that does not give up sees its key in use or gets it: free locks are always taken
Progress == \A t \in Tasks, k \in Keys : (st[t] \in {"try", "sleep"} /\ key[t] = k) ~> (Held(k) \/ st[t] = "idle" \/ key[t] # k)
EmitC == IF Hist /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
