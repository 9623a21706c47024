------------------------------ MODULE LinkedMC ------------------------------
(* Ordered mapping with iteration that tolerates modification (C22).
   list: the linked list, holding keys and the cursors of running iterations;
   todo: what each iteration still has to visit, as the user sees it.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Keys, Its, Depth, Hist
VARIABLES list, todo, hist
vars == <<list, todo, hist>>
Log(r) == hist' = IF Hist THEN Append(hist, r) ELSE hist
Go == ~Hist \/ Len(hist) < Depth
Cur(i) == <<"it", i>>
Item(k) == <<"key", k>>
Has(k) == Item(k) \in {list[x] : x \in DOMAIN list}
Running(i) == Cur(i) \in {list[x] : x \in DOMAIN list}
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Pos(e) == CHOOSE x \in DOMAIN list : list[x] = e
Init == list = <<>> /\ todo = [i \in Its |-> <<>>] /\ hist = <<>>

Set(k) == /\ Go /\ Log([a |-> "set", k |-> k])
          /\ IF Has(k) THEN UNCHANGED <<list, todo>>
             ELSE /\ list' = Append(list, Item(k))
                  /\ todo' = [i \in Its |-> IF Running(i) THEN Append(todo[i], k) ELSE todo[i]]
Del(k) == /\ Go /\ Log([a |-> "del", k |-> k])
          /\ IF ~Has(k) THEN UNCHANGED <<list, todo>>
             ELSE list' = Without(list, Item(k)) /\ todo' = [i \in Its |-> Without(todo[i], k)]
Move(k) == /\ Go /\ Log([a |-> "move", k |-> k])
           /\ IF ~Has(k) THEN UNCHANGED <<list, todo>>
              ELSE /\ list' = Append(Without(list, Item(k)), Item(k))
                   /\ todo' = [i \in Its |-> IF Running(i) THEN Append(Without(todo[i], k), k) ELSE todo[i]]
Start(i) == /\ Go /\ ~Running(i) /\ Log([a |-> "start", i |-> i])
            /\ list' = <<Cur(i)>> \o list
            /\ todo' = [todo EXCEPT ![i] = LET ks == SelectSeq(list, LAMBDA x : x[1] = "key") IN [x \in DOMAIN ks |-> ks[x][2]]]
\* the cursor moves behind the next entry, skipping other cursors
Step(i) == /\ Go /\ Running(i) /\ Log([a |-> "next", i |-> i])
           /\ LET p == Pos(Cur(i))
                  after == {x \in DOMAIN list : x > p /\ list[x][1] = "key"}
              IN IF after = {} THEN list' = Without(list, Cur(i)) /\ todo' = [todo EXCEPT ![i] = <<>>]
                 ELSE LET n == CHOOSE x \in after : \A y \in after : x <= y
                          \* cursors in between are passed
                          s == SubSeq(list, 1, p - 1) \o SubSeq(list, p + 1, n) \o <<Cur(i)>> \o SubSeq(list, n + 1, Len(list))
                      IN list' = s /\ todo' = [todo EXCEPT ![i] = Tail(@)] /\ Assert(list[n][2] = Head(todo[i]), "wrong entry visited")
Close(i) == /\ Go /\ Running(i) /\ Log([a |-> "close", i |-> i])
            /\ list' = Without(list, Cur(i)) /\ todo' = [todo EXCEPT ![i] = <<>>]
Other == Go /\ Hist /\ \E a \in {"get", "pop", "items", "len", "contains"}, k \in Keys :
             /\ Log([a |-> a, k |-> k])
             /\ IF a = "pop" /\ Has(k) THEN list' = Without(list, Item(k)) /\ todo' = [i \in Its |-> Without(todo[i], k)] ELSE UNCHANGED <<list, todo>>
Next == \/ \E k \in Keys : Set(k) \/ Del(k) \/ Move(k)
        \/ \E i \in Its : Start(i) \/ Step(i) \/ Close(i)
        \/ Other
Spec == Init /\ [][Next]_vars

\* what is left to visit is exactly what comes after the cursor
Remaining(i) == LET p == Pos(Cur(i)) ks == SelectSeq(SubSeq(list, p + 1, Len(list)), LAMBDA x : x[1] = "key") IN [x \in DOMAIN ks |-> ks[x][2]]
Inv == \A i \in Its : Running(i) => Remaining(i) = todo[i]
NoDup == \A x, y \in DOMAIN list : x # y => list[x] # list[y]
EmitC == IF Hist /\ Len(hist) = Depth THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
