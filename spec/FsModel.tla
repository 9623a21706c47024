------------------------------ MODULE FsModel ------------------------------
(* Sequential semantics of the S3QL file system as seen at the FUSE request
   level.  The abstract state `st` is a record

     ino  : inode number -> attributes, target, extended attributes, data
     dent : <<directory inode, name>> -> inode
     open : inode -> number of lookups that the kernel still holds (> 0)
     ro   : TRUE once the file system is in fail-safe mode
     bs   : maximum object size (block size)

   DoOp(st, e) gives the state after request e and the reply that must be
   returned.  `e.now` is the logical time of the request (requests are
   numbered), `e.new` the inode number that was handed out if an inode was
   created; nothing else is left open.  The module is used in three ways:
   exhaustively (FsMC), to generate behaviours (FsMC, -simulate), and to judge
   recorded executions of the real code (FsTrace, DbTrace).                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ROOT == 1

\* ---------------------------------------------------------------- helpers
Bit(m, b) == (m \div b) % 2 = 1
Type(m) == m \div 4096
IsDir(m)  == Type(m) = 4
IsReg(m)  == Type(m) = 8
IsFifo(m) == Type(m) = 1
IsBlk(m)  == Type(m) = 6
SETGID == 1024

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [k \in 1 .. n |-> 0]
Resize(d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Zeros(n - Len(d))
Overlay(d, off, buf) ==
    LET n == Max(Len(d), off + Len(buf))
    IN  [k \in 1 .. n |-> IF k > off /\ k <= off + Len(buf) THEN buf[k - off]
                          ELSE IF k <= Len(d) THEN d[k] ELSE 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, k, v) == (k :> v) @@ f

Ino(st, i) == st.ino[i]
Has(st, i) == i \in DOMAIN st.ino
Open(st, i) == IF i \in DOMAIN st.open THEN st.open[i] ELSE 0
Children(st, i) == {k \in DOMAIN st.dent : k[1] = i}
Entry(st, p, n) == <<p, n>> \in DOMAIN st.dent
Get(st, p, n) == st.dent[<<p, n>>]
Upd(st, i, r) == [st EXCEPT !.ino = With(@, i, r)]
AddLookup(st, i, n) == [st EXCEPT !.open = With(@, i, Open(st, i) + n)]
Touch(st, i, now) == Upd(st, i, [Ino(st, i) EXCEPT !.mt = now, !.ct = now])
RelAtime(r, now) == IF r.at < r.ct \/ r.at < r.mt THEN [r EXCEPT !.at = now] ELSE r

Attr(st, i) ==
    LET r == Ino(st, i) IN
    [ino |-> i, mode |-> r.mode, nlink |-> r.nlink, uid |-> r.uid, gid |-> r.gid,
     size |-> r.size, rdev |-> r.rdev, at |-> r.at, mt |-> r.mt, ct |-> r.ct,
     blocks |-> (r.size + 511) \div 512]

\* An inode disappears once nothing refers to it any more.
Gc(st, i) == IF Has(st, i) /\ Ino(st, i).nlink = 0 /\ Open(st, i) = 0
             THEN [st EXCEPT !.ino = Without(@, {i})] ELSE st

Forget(st, i, n) ==
    LET c == Open(st, i) - n
        s == IF c = 0 THEN [st EXCEPT !.open = Without(@, {i})]
             ELSE [st EXCEPT !.open = With(@, i, c)]
    IN Gc(s, i)

R(st, res) == [st |-> st, res |-> res]
Err(st, x) == R(st, [err |-> x])
Ok(st) == R(st, [err |-> ""])
OkAttr(st, i) == R(st, [err |-> "", attr |-> Attr(st, i)])

\* ------------------------------------------------------------- requests
Lookup(st, e) ==
    LET i == IF e.n = "." THEN e.p
             ELSE IF e.n = ".." THEN
                 LET ps == {k \in DOMAIN st.dent : st.dent[k] = e.p} IN (CHOOSE k \in ps : TRUE)[1]
             ELSE IF Entry(st, e.p, e.n) THEN Get(st, e.p, e.n) ELSE 0
    IN IF i = 0 THEN Err(st, "ENOENT") ELSE OkAttr(AddLookup(st, i, 1), i)

Getattr(st, e) == OkAttr(st, e.i)

NewInode(mode, uid, gid, size, rdev, now, target) ==
    [mode |-> mode, nlink |-> 1, uid |-> uid, gid |-> gid, size |-> size, rdev |-> rdev,
     locked |-> FALSE, at |-> now, mt |-> now, ct |-> now, target |-> target,
     islnk |-> Type(mode) = 10, xa |-> <<>>, data |-> Zeros(size)]

\* Creation of a directory entry with a new inode (mknod, mkdir, create, symlink)
Create(st, e, mode0, rdev, size, target) ==
    LET pr == Ino(st, e.p)
        sg == Bit(pr.mode, SETGID)
        gid == IF sg THEN pr.gid ELSE e.gid
        mode == IF sg /\ IsDir(mode0) /\ ~Bit(mode0, SETGID) THEN mode0 + SETGID ELSE mode0
        s1 == Touch(st, e.p, e.now)
        s2 == Upd(s1, e.new, NewInode(mode, e.uid, gid, size, rdev, e.now, target))
        s3 == [s2 EXCEPT !.dent = With(@, <<e.p, e.n>>, e.new)]
    IN IF st.ro \/ pr.locked THEN Err(st, "EPERM")
       ELSE IF pr.nlink = 0 THEN Err(st, "EINVAL")
       ELSE OkAttr(AddLookup(s3, e.new, 1), e.new)

Mknod(st, e) == Create(st, e, e.mode, e.rdev, 0, <<>>)
Mkdir(st, e) == Create(st, e, e.mode, 0, 0, <<>>)
Symlink(st, e) == Create(st, e, 41471, 0, Len(e.target), e.target)   \* S_IFLNK | 0777

Readlink(st, e) ==
    LET r == RelAtime(Ino(st, e.i), e.now)  s == Upd(st, e.i, r)
    IN IF r.islnk THEN R(s, [err |-> "", data |-> r.target]) ELSE Err(s, "EINVAL")

SetSize(r, n) == [r EXCEPT !.size = n, !.data = Resize(@, n)]

\* e.set is a record with the attributes to be changed
Setattr(st, e) ==
    LET r0 == Ino(st, e.i)
        F == DOMAIN e.set
        r1 == [r0 EXCEPT !.mode = IF "mode" \in F THEN e.set.mode ELSE @,
                         !.uid = IF "uid" \in F THEN e.set.uid ELSE @,
                         !.gid = IF "gid" \in F THEN e.set.gid ELSE @,
                         !.at = IF "at" \in F THEN e.set.at ELSE @,
                         !.mt = IF "mt" \in F THEN e.set.mt ELSE @,
                         !.ct = e.now]
        r2 == IF "size" \in F THEN SetSize(r1, e.set.size) ELSE r1
        s == Upd(st, e.i, r2)
    IN IF st.ro \/ r0.locked THEN Err(st, "EPERM") ELSE OkAttr(s, e.i)

\* flags: "r" read-only, "w" write-only, "rw"; e.trunc: O_TRUNC given
OpenReq(st, i, e) ==
    LET r == Ino(st, i)
        wr == e.flags \in {"w", "rw"}
    IN IF wr /\ (st.ro \/ r.locked) THEN Err(st, "EPERM")
       ELSE IF ~e.trunc THEN Ok(st)
       ELSE IF ~wr THEN Err(st, "EINVAL")
       ELSE IF IsReg(r.mode)
            THEN Ok(Upd(st, i, [SetSize(r, 0) EXCEPT !.mt = e.now, !.ct = e.now]))
       ELSE IF IsFifo(r.mode) \/ IsBlk(r.mode) THEN Ok(st)
       ELSE Err(st, "EINVAL")

OpenFile(st, e) == OpenReq(st, e.i, e)

CreateFile(st, e) ==
    IF st.ro THEN Err(st, "EPERM")
    ELSE IF Entry(st, e.p, e.n) THEN
        LET i == Get(st, e.p, e.n)  o == OpenReq(st, i, e)
        IN IF o.res.err # "" THEN o ELSE OkAttr(AddLookup(o.st, i, 1), i)
    ELSE Create(st, e, e.mode, 0, 0, <<>>)

Read(st, e) ==
    LET r == Ino(st, e.i)
        n == Max(0, Min(r.size - e.off, e.len))
        buf == IF n = 0 THEN <<>> ELSE SubSeq(r.data, e.off + 1, e.off + n)
    IN R(Upd(st, e.i, RelAtime(r, e.now)), [err |-> "", data |-> buf])

Write(st, e) ==
    LET r == Ino(st, e.i)
        d == Overlay(r.data, e.off, e.data)
    IN IF st.ro \/ r.locked THEN Err(st, "EPERM")
       ELSE R(Upd(st, e.i, [r EXCEPT !.data = d, !.size = Len(d), !.mt = e.now, !.ct = e.now]),
              [err |-> "", len |-> Len(e.data)])

\* Remove directory entry (after all checks)
DropEntry(st, p, n, now) ==
    LET i == Get(st, p, n)
        s1 == [st EXCEPT !.dent = Without(@, {<<p, n>>})]
        s2 == Upd(s1, i, [Ino(s1, i) EXCEPT !.nlink = @ - 1, !.ct = now])
        s3 == Touch(s2, p, now)
    IN Gc(s3, i)

Unlink(st, e) ==
    IF st.ro THEN Err(st, "EPERM")
    ELSE IF ~Entry(st, e.p, e.n) THEN Err(st, "ENOENT")
    ELSE LET i == Get(st, e.p, e.n) IN
         IF IsDir(Ino(st, i).mode) THEN Err(st, "EISDIR")
         ELSE IF Ino(st, e.p).locked THEN Err(st, "EPERM")
         ELSE Ok(DropEntry(st, e.p, e.n, e.now))

Rmdir(st, e) ==
    IF st.ro THEN Err(st, "EPERM")
    ELSE IF ~Entry(st, e.p, e.n) THEN Err(st, "ENOENT")
    ELSE LET i == Get(st, e.p, e.n) IN
         IF Ino(st, e.p).locked THEN Err(st, "EPERM")
         ELSE IF ~IsDir(Ino(st, i).mode) THEN Err(st, "ENOTDIR")
         ELSE IF Children(st, i) # {} THEN Err(st, "ENOTEMPTY")
         ELSE Ok(DropEntry(st, e.p, e.n, e.now))

Rename(st, e) ==
    LET src == <<e.p, e.n>>  dst == <<e.p2, e.n2>> IN
    IF st.ro \/ Ino(st, e.p).locked \/ Ino(st, e.p2).locked THEN Err(st, "EPERM")
    ELSE IF src \notin DOMAIN st.dent THEN Err(st, "ENOENT")
    ELSE LET i == st.dent[src] IN
         IF dst \notin DOMAIN st.dent THEN
             LET s1 == [st EXCEPT !.dent = With(Without(@, {src}), dst, i)]
             IN Ok(Touch(Touch(s1, e.p, e.now), e.p2, e.now))
         ELSE LET j == st.dent[dst]
                  s1 == [st EXCEPT !.dent = With(Without(@, {src}), dst, i)]
                  s2 == Upd(s1, j, [Ino(s1, j) EXCEPT !.nlink = @ - 1, !.ct = e.now])
                  s3 == Touch(Touch(s2, e.p, e.now), e.p2, e.now)
              IN IF Children(st, j) # {} THEN Err(st, "EINVAL") ELSE Ok(Gc(s3, j))

Link(st, e) ==
    LET pr == Ino(st, e.p)
        s1 == Touch(st, e.p, e.now)
        s2 == [s1 EXCEPT !.dent = With(@, <<e.p, e.n>>, e.i)]
        s3 == Upd(s2, e.i, [Ino(s2, e.i) EXCEPT !.nlink = @ + 1, !.ct = e.now])
    IN IF pr.nlink = 0 THEN Err(st, "EINVAL")
       ELSE IF st.ro \/ pr.locked THEN Err(st, "EPERM")
       ELSE OkAttr(AddLookup(s3, e.i, 1), e.i)

Setxattr(st, e) ==
    LET r == Ino(st, e.i) IN
    IF st.ro \/ r.locked THEN Err(st, "EPERM")
    ELSE Ok(Upd(st, e.i, [r EXCEPT !.xa = With(@, e.n, e.data), !.ct = e.now]))
Getxattr(st, e) ==
    LET r == Ino(st, e.i) IN
    IF e.n \in DOMAIN r.xa THEN R(st, [err |-> "", data |-> r.xa[e.n]]) ELSE Err(st, "ENOATTR")
Listxattr(st, e) == R(st, [err |-> "", names |-> DOMAIN Ino(st, e.i).xa])
Removexattr(st, e) ==
    LET r == Ino(st, e.i) IN
    IF st.ro \/ r.locked THEN Err(st, "EPERM")
    ELSE IF e.n \notin DOMAIN r.xa THEN Err(st, "ENOATTR")
    ELSE Ok(Upd(st, e.i, [r EXCEPT !.xa = Without(@, {e.n}), !.ct = e.now]))

\* A complete directory listing; every listed entry counts as looked up
Readdir(st, e) ==
    LET ents == Children(st, e.i)
        s0 == Upd(st, e.i, RelAtime(Ino(st, e.i), e.now))
        incs == [x \in {st.dent[k] : k \in ents} |->
                   Open(st, x) + Cardinality({k \in ents : st.dent[k] = x})]
    IN R([s0 EXCEPT !.open = incs @@ @],
         [err |-> "", ents |-> {[n |-> k[2], attr |-> Attr(s0, st.dent[k])] : k \in ents}])

ForgetReq(st, e) == Ok(Forget(st, e.i, e.len))

\* ------------------------------------------------------- tree operations
\* All inodes reachable from i through directory entries, including i
RECURSIVE Reach(_, _)
Reach(st, S) ==
    LET T == S \cup {st.dent[k] : k \in {x \in DOMAIN st.dent : x[1] \in S}}
    IN IF T = S THEN S ELSE Reach(st, T)

LockTree(st, e) ==
    IF st.ro THEN Err(st, "EPERM")
    ELSE LET S == Reach(st, {e.i})
         IN Ok([st EXCEPT !.ino = [i \in DOMAIN @ |->
                    IF i \in S THEN [@[i] EXCEPT !.locked = TRUE] ELSE @[i]]])

\* Removes the entry <<p, n>> and everything below it, ignoring locks below p
RmTree(st, e) ==
    IF st.ro \/ Ino(st, e.p).locked THEN Err(st, "EPERM")
    ELSE IF ~Entry(st, e.p, e.n) THEN Err(st, "ENOENT")
    ELSE LET i0 == Get(st, e.p, e.n)
             S == Reach(st, {i0})
             gone == {k \in DOMAIN st.dent : k[1] \in S} \cup {<<e.p, e.n>>}
             lost == [i \in DOMAIN st.ino |-> Cardinality({k \in gone : st.dent[k] = i})]
             dirs == {k[1] : k \in gone}
             ino1 == [i \in DOMAIN st.ino |->
                        LET r == st.ino[i] IN
                        [r EXCEPT !.nlink = @ - lost[i],
                                  !.ct = IF lost[i] > 0 \/ i \in dirs THEN e.now ELSE @,
                                  !.mt = IF i \in dirs THEN e.now ELSE @]]
             keep == {i \in DOMAIN ino1 : ino1[i].nlink > 0 \/ Open(st, i) > 0}
         IN Ok([st EXCEPT !.dent = Without(@, gone), !.ino = [i \in keep |-> ino1[i]]])

\* Replicates directory e.i into the empty directory e.p.  e.map is the observed correspondence
\* of old to new inodes; it must be a renaming of exactly the replicated inodes.
CopyTree(st, e) ==
    LET ents == {k \in DOMAIN st.dent : k[1] \in Reach(st, {e.i})}
        old == {st.dent[k] : k \in ents}
        mapped == {e.map[x][1] : x \in DOMAIN e.map}
        new == {e.map[x][2] : x \in DOMAIN e.map}
        Img(i) == IF i = e.i THEN e.p ELSE (e.map[CHOOSE x \in DOMAIN e.map : e.map[x][1] = i])[2]
        src == Ino(st, e.i)
        s1 == Upd(st, e.p, [Ino(st, e.p) EXCEPT !.at = src.at, !.mt = src.mt, !.ct = src.ct,
                              !.mode = src.mode, !.uid = src.uid, !.gid = src.gid])
        copies == [j \in new |->
                     LET i == (e.map[CHOOSE x \in DOMAIN e.map : e.map[x][2] = j])[1]
                     IN [Ino(s1, i) EXCEPT !.locked = FALSE,
                            !.nlink = Cardinality({k \in ents : st.dent[k] = i})]]
        dents == [k \in {<<Img(x[1]), x[2]>> : x \in ents} |->
                     Img(st.dent[CHOOSE x \in ents : Img(x[1]) = k[1] /\ x[2] = k[2]])]
    IN IF st.ro THEN Err(st, "EPERM")
       ELSE IF ~Has(st, e.i) \/ ~Has(st, e.p) THEN Err(st, "ENOENT")
       ELSE IF mapped # old \/ Cardinality(new) # Cardinality(old) \/ Len(e.map) # Cardinality(old)
               \/ new \cap DOMAIN st.ino # {}
            THEN R(st, [err |-> "copy is not a renaming of the source"])
       ELSE Ok([s1 EXCEPT !.ino = copies @@ @, !.dent = dents @@ @])

RECURSIVE SumSizes(_, _)
SumSizes(ino, S) == IF S = {} THEN 0
                    ELSE LET i == CHOOSE x \in S : TRUE IN ino[i].size + SumSizes(ino, S \ {i})
ExtStat(st, e) == R(st, [err |-> "", entries |-> Cardinality(DOMAIN st.dent),
                         inodes |-> Cardinality(DOMAIN st.ino) + 1,   \* + control inode
                         fssize |-> SumSizes(st.ino, DOMAIN st.ino)])

\* ---------------------------------------------------------------- dispatch
DoOp(st, e) ==
    CASE e.op = "lookup" -> Lookup(st, e)
      [] e.op = "getattr" -> Getattr(st, e)
      [] e.op = "setattr" -> Setattr(st, e)
      [] e.op = "mknod" -> Mknod(st, e)
      [] e.op = "mkdir" -> Mkdir(st, e)
      [] e.op = "symlink" -> Symlink(st, e)
      [] e.op = "readlink" -> Readlink(st, e)
      [] e.op = "open" -> OpenFile(st, e)
      [] e.op = "create" -> CreateFile(st, e)
      [] e.op = "read" -> Read(st, e)
      [] e.op = "write" -> Write(st, e)
      [] e.op = "unlink" -> Unlink(st, e)
      [] e.op = "rmdir" -> Rmdir(st, e)
      [] e.op = "rename" -> Rename(st, e)
      [] e.op = "link" -> Link(st, e)
      [] e.op = "setxattr" -> Setxattr(st, e)
      [] e.op = "getxattr" -> Getxattr(st, e)
      [] e.op = "listxattr" -> Listxattr(st, e)
      [] e.op = "removexattr" -> Removexattr(st, e)
      [] e.op = "readdir" -> Readdir(st, e)
      [] e.op = "forget" -> ForgetReq(st, e)
      [] e.op = "locktree" -> LockTree(st, e)
      [] e.op = "rmtree" -> RmTree(st, e)
      [] e.op = "copytree" -> CopyTree(st, e)
      [] e.op = "extstat" -> ExtStat(st, e)
      [] e.op \in {"flushcache", "dropcache", "fsync", "idle", "release", "access"} -> Ok(st)

\* Replies contain sets where the order is not specified; traces contain sequences.
SeqSet(s) == {s[k] : k \in DOMAIN s}
SameReply(e, res) ==
    IF e.res.err # res.err THEN FALSE
    ELSE IF res.err # "" THEN TRUE
    ELSE CASE e.op = "listxattr" -> SeqSet(e.res.names) = res.names /\ Len(e.res.names) = Cardinality(res.names)
           [] e.op = "readdir" -> SeqSet(e.res.ents) = res.ents /\ Len(e.res.ents) = Cardinality(res.ents)
           [] OTHER -> e.res = res

InitState(e) ==   \* state of a freshly created file system; e.root, e.lf: their owner ids
    [ino |-> (1 :> [NewInode(16877, e.uid, e.gid, 0, 0, e.now, <<>>) EXCEPT !.nlink = 1])
             @@ (e.lf :> NewInode(16832, e.uid, e.gid, 0, 0, e.now, <<>>)),
     dent |-> (<<1, "lost+found">> :> e.lf),
     open |-> (1 :> 1), ro |-> FALSE, bs |-> e.bs]

=============================================================================
