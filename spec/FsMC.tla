------------------------------- MODULE FsMC -------------------------------
(* The file system model as a state machine: all requests that a kernel can
   issue in a state, over small constants.  Checked exhaustively (invariants of
   the design), and used with -simulate to generate request sequences which the
   harness replays on the real handlers (Hist is printed at the end).           *)
EXTENDS FsModel, Json
CONSTANTS Names, MaxIno, MaxLook, MaxSize, Ops, Depth, Bs, Timed
VARIABLES st, nxt, k, hist
vars == <<st, nxt, k, hist>>
LF == 3
now == IF Timed THEN 1000000 + k ELSE 0
Init == /\ st = InitState([lf |-> LF, uid |-> 0, gid |-> 0, now |-> IF Timed THEN 1000000 ELSE 0, bs |-> Bs])
        /\ nxt = 4 /\ k = 1 /\ hist = <<>>

Known == {i \in DOMAIN st.ino : Open(st, i) > 0}
Dirs == {i \in Known : IsDir(Ino(st, i).mode) /\ Ino(st, i).nlink > 0}
Free(p, n) == <<p, n>> \notin DOMAIN st.dent
InoOk == nxt <= MaxIno
LookOk(i) == Open(st, i) < MaxLook
Files == {i \in Known : IsReg(Ino(st, i).mode)}
EntryDirs == {i \in Known : IsDir(Ino(st, i).mode)}
Entries == {x \in DOMAIN st.dent : x[1] \in Known /\ x[2] # "lost+found"}

\* one request: state transition of DoOp plus bookkeeping
Req(e0) ==
    LET e == e0 @@ [now |-> now, new |-> nxt]
        r == DoOp(st, e)
        made == /\ r.res.err = ""
                /\ \/ e.op \in {"mknod", "mkdir", "symlink"}
                   \/ e.op = "create" /\ Free(e.p, e.n)
    IN /\ e.op \in Ops /\ k <= Depth
       /\ st' = r.st
       /\ nxt' = IF made THEN nxt + 1 ELSE nxt
       /\ k' = IF Timed THEN k + 1 ELSE k
       /\ hist' = IF Timed THEN Append(hist, e0 @@ [new |-> IF made THEN nxt ELSE 0]) ELSE hist

Id == [uid |-> 0, gid |-> 0]
DoLookup == \E x \in DOMAIN st.dent : x[1] \in Known /\ LookOk(st.dent[x]) /\ Req([op |-> "lookup", p |-> x[1], n |-> x[2]])
DoMknod == \E p \in Dirs, n \in Names : Free(p, n) /\ InoOk /\
              Req([op |-> "mknod", p |-> p, n |-> n, mode |-> 33188, rdev |-> 0] @@ Id)
DoMkdir == \E p \in Dirs, n \in Names : Free(p, n) /\ InoOk /\
              Req([op |-> "mkdir", p |-> p, n |-> n, mode |-> 16877] @@ Id)
DoSymlink == \E p \in Dirs, n \in Names : Free(p, n) /\ InoOk /\
              Req([op |-> "symlink", p |-> p, n |-> n, target |-> <<65, 66>>] @@ Id)
DoCreate == \E p \in Dirs, n \in Names, t \in BOOLEAN :
              /\ IF Free(p, n) THEN InoOk ELSE IsReg(Ino(st, Get(st, p, n)).mode) /\ LookOk(Get(st, p, n))
              /\ Req([op |-> "create", p |-> p, n |-> n, mode |-> 33188, flags |-> "rw", trunc |-> t] @@ Id)
DoOpen == \E i \in Files, t \in BOOLEAN : Req([op |-> "open", i |-> i, flags |-> "rw", trunc |-> t])
DoRead == \E i \in Files : Req([op |-> "read", i |-> i, off |-> 0, len |-> MaxSize + 1])
DoWrite == \E i \in Files, o \in 0 .. MaxSize - 1, v \in 1 .. 2 :
              Req([op |-> "write", i |-> i, off |-> o, data |-> <<v>>])
DoTrunc == \E i \in Files, n \in 0 .. MaxSize : Req([op |-> "setattr", i |-> i, set |-> [size |-> n]])
DoChmod == \E i \in Known : Req([op |-> "setattr", i |-> i, set |-> [uid |-> 7]])
DoUnlink == \E x \in Entries : ~IsDir(Ino(st, st.dent[x]).mode) /\ Req([op |-> "unlink", p |-> x[1], n |-> x[2]])
DoRmdir == \E x \in Entries : IsDir(Ino(st, st.dent[x]).mode) /\ Req([op |-> "rmdir", p |-> x[1], n |-> x[2]])
DoRename == \E x \in Entries, p \in Dirs, n \in Names :
              LET i == st.dent[x] IN
              /\ <<p, n>> # x
              /\ IsDir(Ino(st, i).mode) => p \notin Reach(st, {i})
              /\ ~Free(p, n) => /\ Get(st, p, n) # i
                                /\ IsDir(Ino(st, Get(st, p, n)).mode) <=> IsDir(Ino(st, i).mode)
              /\ Req([op |-> "rename", p |-> x[1], n |-> x[2], p2 |-> p, n2 |-> n])
DoLink == \E i \in Known, p \in Dirs, n \in Names :
              /\ ~IsDir(Ino(st, i).mode) /\ Ino(st, i).nlink > 0 /\ Free(p, n) /\ LookOk(i)
              /\ Req([op |-> "link", i |-> i, p |-> p, n |-> n])
DoSetx == \E i \in Known, n \in Names : Req([op |-> "setxattr", i |-> i, n |-> n, data |-> <<1>>])
DoRmx == \E i \in Known, n \in Names : Req([op |-> "removexattr", i |-> i, n |-> n])
DoForget == \E i \in Known \ {ROOT} : \E n \in 1 .. Open(st, i) : Req([op |-> "forget", i |-> i, len |-> n])
DoReaddir == \E i \in EntryDirs : (\A x \in Children(st, i) : LookOk(st.dent[x])) /\ Req([op |-> "readdir", i |-> i, chunk |-> 1])
DoLock == \E i \in Dirs \ {ROOT} : Req([op |-> "locktree", i |-> i])
DoRmtree == \E x \in Entries : Req([op |-> "rmtree", p |-> x[1], n |-> x[2]])
DoFlush == Timed /\ Req([op |-> "flushcache"])
DoDrop == Timed /\ Req([op |-> "dropcache"])
DoIdle == Timed /\ Req([op |-> "idle"])
\* copies: Map is any bijection onto fresh inodes; here the canonical one
DoCopy == \E i, p \in Dirs \ {ROOT} :
    /\ i # p /\ Children(st, p) = {} /\ p \notin Reach(st, {i})
    /\ LET old == {st.dent[x] : x \in {y \in DOMAIN st.dent : y[1] \in Reach(st, {i})}}
           RECURSIVE F(_, _)
           F(S, j) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S : a <= b
                                               IN <<<<a, j>>>> \o F(S \ {a}, j + 1)
       IN /\ nxt + Cardinality(old) <= MaxIno + 1
          /\ LET e0 == [op |-> "copytree", i |-> i, p |-> p, map |-> F(old, nxt)]
                 r == DoOp(st, e0 @@ [now |-> now, new |-> 0])
             IN /\ "copytree" \in Ops /\ k <= Depth
                /\ r.res.err = "" /\ st' = r.st /\ nxt' = nxt + Cardinality(old)
                /\ k' = IF Timed THEN k + 1 ELSE k
                /\ hist' = IF Timed THEN Append(hist, e0 @@ [new |-> 0]) ELSE hist
Next == \/ DoLookup \/ DoMknod \/ DoMkdir \/ DoSymlink \/ DoCreate \/ DoOpen \/ DoRead \/ DoWrite \/ DoTrunc
        \/ DoChmod \/ DoUnlink \/ DoRmdir \/ DoRename \/ DoLink \/ DoSetx \/ DoRmx \/ DoForget \/ DoReaddir
        \/ DoLock \/ DoRmtree \/ DoFlush \/ DoDrop \/ DoIdle \/ DoCopy
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- invariants
Nlink == \A i \in DOMAIN st.ino \ {ROOT} :
            st.ino[i].nlink = Cardinality({x \in DOMAIN st.dent : st.dent[x] = i})
NoDangling == \A x \in DOMAIN st.dent : x[1] \in DOMAIN st.ino /\ st.dent[x] \in DOMAIN st.ino
Released == \A i \in DOMAIN st.ino : st.ino[i].nlink > 0 \/ Open(st, i) > 0
OpenExists == DOMAIN st.open \subseteq DOMAIN st.ino /\ \A i \in DOMAIN st.open : st.open[i] > 0
OneParent == \A i \in DOMAIN st.ino : IsDir(st.ino[i].mode) =>
                Cardinality({x \in DOMAIN st.dent : st.dent[x] = i}) <= 1
Tree == {i \in DOMAIN st.ino : st.ino[i].nlink > 0} \subseteq
          Reach(st, {ROOT} \cup {i \in DOMAIN st.ino : st.ino[i].nlink = 0})
DeadDirsEmpty == \A x \in DOMAIN st.dent : st.ino[x[1]].nlink > 0
SizeData == \A i \in DOMAIN st.ino : IsReg(st.ino[i].mode) => Len(st.ino[i].data) = st.ino[i].size
\* a locked tree changes only by recursive removal (action property)
LockedStable == [][\A i \in DOMAIN st.ino : st.ino[i].locked /\ i \in DOMAIN st'.ino =>
                     /\ st'.ino[i].data = st.ino[i].data /\ st'.ino[i].xa = st.ino[i].xa
                     /\ st'.ino[i].mode = st.ino[i].mode /\ st'.ino[i].uid = st.ino[i].uid
                     /\ {x \in DOMAIN st'.dent : x[1] = i} \subseteq {x \in DOMAIN st.dent : x[1] = i}]_vars
Inv == Nlink /\ NoDangling /\ Released /\ OpenExists /\ OneParent /\ Tree /\ DeadDirsEmpty /\ SizeData
View == <<st, nxt, k>>
\* behaviours for replay: printed when complete
EmitC == IF Timed /\ k = Depth + 1 THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
