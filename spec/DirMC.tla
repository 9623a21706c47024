------------------------------- MODULE DirMC -------------------------------
(* Design of directory listings: entries are ordered by the number of their
   (shared, reference counted, reusable) name; a listing continues behind the
   last number returned.  Checked: entries present throughout are returned
   exactly once, for every interleaving of steps and modifications.           *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Name, MaxOps
VARIABLES ids, ref, dir, other, off, since, seen, done, n, dup
vars == <<ids, ref, dir, other, off, since, seen, done, n, dup>>
\* ids: name -> number while referenced; dir/other: two directories sharing names
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Init == /\ ids = <<>> /\ ref = <<>> /\ dir = {} /\ other = {} /\ off = 0 /\ since = {} /\ seen = {} /\ done = FALSE /\ n = 0 /\ dup = FALSE
Intern(x) == IF x \in DOMAIN ids THEN /\ ref' = [ref EXCEPT ![x] = @ + 1] /\ UNCHANGED ids
             ELSE /\ ids' = (x :> Max0({ids[y] : y \in DOMAIN ids}) + 1) @@ ids /\ ref' = (x :> 1) @@ ref
Release(x) == IF ref[x] > 1 THEN /\ ref' = [ref EXCEPT ![x] = @ - 1] /\ UNCHANGED ids
              ELSE /\ ids' = [y \in DOMAIN ids \ {x} |-> ids[y]] /\ ref' = [y \in DOMAIN ref \ {x} |-> ref[y]]
Busy == n < MaxOps /\ n' = n + 1
Add(x) == Busy /\ x \notin dir /\ dir' = dir \cup {x} /\ Intern(x) /\ UNCHANGED <<other, off, since, seen, done, dup>>
Del(x) == Busy /\ x \in dir /\ dir' = dir \ {x} /\ Release(x) /\ since' = since \ {x} /\ seen' = seen \ {x} /\ UNCHANGED <<other, off, done, dup>>
AddO(x) == Busy /\ x \notin other /\ other' = other \cup {x} /\ Intern(x) /\ UNCHANGED <<dir, off, since, seen, done, dup>>
DelO(x) == Busy /\ x \in other /\ other' = other \ {x} /\ Release(x) /\ UNCHANGED <<dir, off, since, seen, done, dup>>
Start == off' = 0 /\ since' = dir /\ seen' = {} /\ done' = FALSE /\ Busy /\ UNCHANGED <<ids, ref, dir, other, dup>>
Read == ~done /\ LET C == {x \in dir : ids[x] > off} IN
        IF C = {} THEN done' = TRUE /\ UNCHANGED <<ids, ref, dir, other, off, since, seen, n, dup>>
        ELSE LET x == CHOOSE x \in C : \A y \in C : ids[x] <= ids[y]
             IN /\ off' = ids[x] /\ dup' = (dup \/ (x \in seen)) /\ seen' = seen \cup {x}
                /\ UNCHANGED <<ids, ref, dir, other, since, done, n>>
Next == \/ \E x \in Name : Add(x) \/ Del(x) \/ AddO(x) \/ DelO(x)
        \/ Start \/ Read
Spec == Init /\ [][Next]_vars
ExactlyOnce == ~dup
Complete == done => since \subseteq seen
=============================================================================
