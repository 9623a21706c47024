------------------------------ MODULE DirTrace ------------------------------
(* Directory listings in steps, interleaved with modifications (C13).
   A listing (handle) remembers which names have existed ever since it was
   started, and what it has returned so far and at which position.            *)
EXTENDS FsModel, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, hs, bad
vars == <<l, st, hs, bad>>

Names(s, d) == {k[2] : k \in Children(s, d)}
\* entries of directory d that are the same in both states (not removed, not replaced)
Same(s, t, d) == {n \in Names(s, d) \cap Names(t, d) : s.dent[<<d, n>>] = t.dent[<<d, n>>]}
\* after a modification: names that vanished are forgotten by all listings of that directory
Follow(s, t) == [h \in DOMAIN hs |->
    LET r == hs[h]  keep == Same(s, t, r.dir) IN
    [r EXCEPT !.since = @ \cap keep,
              !.order = [j \in DOMAIN @ |-> IF @[j].n \in keep THEN @[j] ELSE [@[j] EXCEPT !.n = ""]]]]
SeenUpTo(r, j) == {r.order[x].n : x \in 1 .. j} \ {""}

\* position (number of entries before it) of a cookie handed out earlier
PosOf(r, c) == IF c = 0 THEN 0 ELSE CHOOSE j \in DOMAIN r.order : r.order[j].next = c

RdStep(e) ==
    LET r0 == hs[e.h]
        \* starting from the beginning starts a new listing
        r == IF e.off = 0 THEN [r0 EXCEPT !.since = Names(st, r0.dir), !.order = <<>>] ELSE r0
        j == PosOf(r, e.off)
        seen == SeenUpTo(r, j)
        got == e.ents
        gotn == {got[x].n : x \in DOMAIN got}
        r2 == [r EXCEPT !.order = SubSeq(@, 1, j) \o [x \in DOMAIN got |-> [n |-> got[x].n, next |-> got[x].next]]]
        s0 == IF e.call THEN Upd(st, r.dir, RelAtime(Ino(st, r.dir), e.now)) ELSE st
        incs == [x \in {st.dent[<<r.dir, n>>] : n \in gotn \cap Names(st, r.dir)} |->
                   Open(st, x) + Cardinality({n \in gotn : st.dent[<<r.dir, n>>] = x})]
        s1 == [s0 EXCEPT !.open = incs @@ @]
        c == IF Cardinality(gotn) # Len(got) THEN "entry returned twice in one step"
             ELSE IF ~(gotn \subseteq Names(st, r.dir)) THEN "entry returned that does not exist"
             ELSE IF gotn \cap seen # {} THEN "entry returned twice in one listing"
             ELSE IF \E x \in DOMAIN got : got[x].attr # Attr(s0, st.dent[<<r.dir, got[x].n>>]) THEN "wrong attributes in listing"
             ELSE IF e.end /\ ~(r2.since \subseteq SeenUpTo(r2, Len(r2.order))) THEN "existing entry not returned"
             ELSE IF ~e.end /\ Len(got) # e.chunk THEN "listing stops early"
             ELSE ""
    IN [st |-> s1, hs |-> [hs EXCEPT ![e.h] = r2], bad |-> c]

Step(e) ==
    IF e.op = "init" THEN [st |-> InitState(e), hs |-> <<>>, bad |-> ""]
    ELSE IF e.op \in {"exception", "request"} THEN [st |-> st, hs |-> hs, bad |-> "request handler failed"]
    ELSE IF e.op = "rdopen" THEN [st |-> st, bad |-> "",
            hs |-> (e.h :> [dir |-> e.i, since |-> Names(st, e.i), order |-> <<>>]) @@ hs]
    ELSE IF e.op = "rdstep" THEN RdStep(e)
    ELSE LET r == DoOp(st, e)
         IN [st |-> r.st, hs |-> Follow(st, r.st), bad |-> IF SameReply(e, r.res) THEN "" ELSE "reply differs from model"]

Init == l = 1 /\ st = [ino |-> <<>>] /\ hs = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace)
        /\ LET r == Step(Trace[l]) IN st' = r.st /\ bad' = r.bad /\ hs' = r.hs
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
NoMismatch == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
