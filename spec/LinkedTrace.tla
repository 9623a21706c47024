---------------------------- MODULE LinkedTrace -----------------------------
(* Judges recorded executions of the real ordered mapping.
   order: keys in order; val: key -> value; todo: iteration -> keys to visit.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, order, val, todo, bad
vars == <<l, order, val, todo, bad>>
Has(k) == k \in DOMAIN val
Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
Drop(k) == [x \in DOMAIN val \ {k} |-> val[x]]
DropAll(k) == [i \in DOMAIN todo |-> Without(todo[i], k)]
Res(e, r) == IF e.res = r THEN "" ELSE "wrong result of " \o e.op
R(o, v, t, b) == [order |-> o, val |-> v, todo |-> t, bad |-> b]
Keep(b) == R(order, val, todo, b)
KeyErr == [err |-> "KeyError"]
Bag(s) == {<<s[x], Cardinality({y \in DOMAIN s : s[y] = s[x]})>> : x \in DOMAIN s}
Step(e) ==
    CASE e.op = "init" -> R(<<>>, <<>>, <<>>, "")
      [] e.op = "set" -> IF Has(e.k) THEN R(order, [val EXCEPT ![e.k] = e.v], todo, "")
                         ELSE R(Append(order, e.k), (e.k :> e.v) @@ val, [i \in DOMAIN todo |-> Append(todo[i], e.k)], "")
      [] e.op \in {"del", "pop"} ->
            IF ~Has(e.k) THEN Keep(Res(e, KeyErr))
            ELSE R(Without(order, e.k), Drop(e.k), DropAll(e.k), Res(e, IF e.op = "pop" THEN [val |-> val[e.k]] ELSE [ok |-> 1]))
      [] e.op = "move" -> IF ~Has(e.k) THEN Keep(Res(e, KeyErr))
                          ELSE R(Append(Without(order, e.k), e.k), val, [i \in DOMAIN todo |-> Append(Without(todo[i], e.k), e.k)], Res(e, [ok |-> 1]))
      [] e.op = "item" -> Keep(Res(e, IF Has(e.k) THEN [val |-> val[e.k]] ELSE KeyErr))
      [] e.op = "get" -> Keep(Res(e, [val |-> IF Has(e.k) THEN val[e.k] ELSE -7]))
      [] e.op = "contains" -> Keep(Res(e, [val |-> Has(e.k)]))
      [] e.op = "len" -> Keep(Res(e, [val |-> Len(order)]))
      [] e.op = "keys" -> Keep(IF Bag(e.res) = Bag(order) THEN "" ELSE "wrong keys")
      [] e.op = "values" -> Keep(IF Bag(e.res) = Bag([x \in DOMAIN order |-> val[order[x]]]) THEN "" ELSE "wrong values")
      [] e.op = "items" -> Keep(IF Bag(e.res) = Bag([x \in DOMAIN order |-> <<order[x], val[order[x]]>>]) THEN "" ELSE "wrong items")
      [] e.op = "all" -> Keep(IF e.res = [x \in DOMAIN order |-> val[order[x]]] THEN "" ELSE "order is wrong")
      [] e.op = "start" -> R(order, val, (e.i :> order) @@ todo, "")
      [] e.op = "next" ->
            IF todo[e.i] = <<>> THEN R(order, val, [i \in DOMAIN todo \ {e.i} |-> todo[i]],
                IF e.res = [err |-> "StopIteration"] THEN "" ELSE "iteration does not stop")
            ELSE R(order, val, [todo EXCEPT ![e.i] = Tail(@)],
                IF e.res = [val |-> val[Head(todo[e.i])]] THEN "" ELSE "iteration visits the wrong entry")
      [] e.op = "close" -> R(order, val, [i \in DOMAIN todo \ {e.i} |-> todo[i]], "")
      [] OTHER -> Keep("operation failed")
Init == l = 1 /\ order = <<>> /\ val = <<>> /\ todo = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l]) IN order' = r.order /\ val' = r.val /\ todo' = r.todo /\ bad' = r.bad
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
