------------------------------ MODULE DbModel ------------------------------
(* The concrete metadata: tables of the SQLite database plus the set of data
   objects in the backend.  `DumpVerdict` states (1) the internal consistency of
   a dump and (2) the refinement mapping to the abstract file system state.

   A dump d has sequences of records
     names [id,name,ref]  contents [nid,ino,par]  inodes [id,mode,nlink,uid,gid,size,rdev,locked,at,mt,ct]
     blocks [ino,no,obj]  objects [id,h,ref,phys,len]  xattrs [ino,nid,val]  links [ino,target]
     store [id,data]    (objects found in the backend, decoded)
     keys  (ids of the data objects listed by the backend)                    *)
EXTENDS FsModel

Rng(s) == {s[k] : k \in DOMAIN s}
CountIf(s, P(_)) == Cardinality({k \in DOMAIN s : P(s[k])})
CTRL == 2

\* ---- (1) internal consistency: one operator per clause, for precise reports
NamesUnique(d)   == Cardinality({x.name : x \in Rng(d.names)}) = Len(d.names)
EntriesResolve(d) == \A c \in Rng(d.contents) :
    /\ \E x \in Rng(d.names) : x.id = c.nid
    /\ \E i \in Rng(d.inodes) : i.id = c.ino
    /\ \E i \in Rng(d.inodes) : i.id = c.par
EntriesUnique(d) == Cardinality({<<c.par, c.nid>> : c \in Rng(d.contents)}) = Len(d.contents)
NameRefs(d) == \A x \in Rng(d.names) :
    x.ref = CountIf(d.contents, LAMBDA c : c.nid = x.id) + CountIf(d.xattrs, LAMBDA a : a.nid = x.id)
NamesUsed(d) == \A x \in Rng(d.names) : x.ref > 0
XattrsResolve(d) == \A a \in Rng(d.xattrs) :
    /\ \E x \in Rng(d.names) : x.id = a.nid
    /\ \E i \in Rng(d.inodes) : i.id = a.ino
InodeRefs(d) == \A i \in Rng(d.inodes) :
    i.id \in {ROOT, CTRL} \/ i.nlink = CountIf(d.contents, LAMBDA c : c.ino = i.id)
BlocksResolve(d) == \A b \in Rng(d.blocks) :
    /\ \E i \in Rng(d.inodes) : i.id = b.ino
    /\ \E o \in Rng(d.objects) : o.id = b.obj
BlocksWithinSize(d, bs) == \A b \in Rng(d.blocks) :
    \A i \in Rng(d.inodes) : i.id = b.ino => b.no * bs < i.size
ObjectRefs(d) == \A o \in Rng(d.objects) : o.ref = CountIf(d.blocks, LAMBDA b : b.obj = o.id)
ObjectsUsed(d) == \A o \in Rng(d.objects) : o.ref > 0
ObjectHashes(d) == \A o, p \in Rng(d.objects) : o.h = p.h => o.id = p.id
ObjectsUploaded(d) == \A o \in Rng(d.objects) : o.phys > 0 /\ o.h # ""
LinksResolve(d) == \A k \in Rng(d.links) : \E i \in Rng(d.inodes) : i.id = k.ino
\* metadata and backend agree
NothingMissing(d) == {o.id : o \in Rng(d.objects)} \subseteq Rng(d.keys)
NothingLeft(d) == Rng(d.keys) \subseteq {o.id : o \in Rng(d.objects)}
Dedup(d) == \A x, y \in Rng(d.store) : x.data = y.data => x.id = y.id
LengthsRight(d) == \A x \in Rng(d.store) : \A o \in Rng(d.objects) : o.id = x.id => o.len = Len(x.data)

Consistency(d, bs) ==
    IF ~NamesUnique(d) THEN "duplicate names"
    ELSE IF ~EntriesResolve(d) THEN "directory entry refers to missing name or inode"
    ELSE IF ~EntriesUnique(d) THEN "duplicate directory entry"
    ELSE IF ~XattrsResolve(d) THEN "extended attribute refers to missing name or inode"
    ELSE IF ~NameRefs(d) THEN "name reference count"
    ELSE IF ~NamesUsed(d) THEN "unreferenced name"
    ELSE IF ~InodeRefs(d) THEN "inode reference count"
    ELSE IF ~BlocksResolve(d) THEN "block refers to missing inode or object"
    ELSE IF ~BlocksWithinSize(d, bs) THEN "block beyond end of file"
    ELSE IF ~ObjectRefs(d) THEN "object reference count"
    ELSE IF ~ObjectsUsed(d) THEN "unreferenced object"
    ELSE IF ~ObjectHashes(d) THEN "duplicate hash"
    ELSE IF ~LinksResolve(d) THEN "symlink target refers to missing inode"
    ELSE ""

\* Only meaningful when no transfer is pending
BackendAgrees(d) ==
    IF ~ObjectsUploaded(d) THEN "object not marked as uploaded"
    ELSE IF ~NothingMissing(d) THEN "referenced object missing in backend"
    ELSE IF ~NothingLeft(d) THEN "unreferenced object left in backend"
    ELSE IF ~LengthsRight(d) THEN "wrong object length"
    ELSE IF ~Dedup(d) THEN "identical blocks stored twice"
    ELSE ""

\* ---- (2) abstraction
NameOf(d, nid) == (CHOOSE x \in Rng(d.names) : x.id = nid).name
AbsDent(d) == LET K == {[k |-> <<c.par, NameOf(d, c.nid)>>, v |-> c.ino] : c \in Rng(d.contents)}
              IN [k \in {x.k : x \in K} |-> (CHOOSE x \in K : x.k = k).v]
AbsXa(d, i) == LET K == {[k |-> NameOf(d, a.nid), v |-> a.val] : a \in {x \in Rng(d.xattrs) : x.ino = i}}
               IN [k \in {x.k : x \in K} |-> (CHOOSE x \in K : x.k = k).v]
BlockData(d, i, no) ==
    LET B == {b \in Rng(d.blocks) : b.ino = i /\ b.no = no}
    IN IF B = {} THEN <<>> ELSE
       LET o == (CHOOSE b \in B : TRUE).obj
           S == {x \in Rng(d.store) : x.id = o}
       IN IF S = {} THEN <<-1>> ELSE (CHOOSE x \in S : TRUE).data
AbsData(d, i, size, bs) ==
    [k \in 1 .. size |-> LET b == BlockData(d, i, (k - 1) \div bs)  o == ((k - 1) % bs) + 1
                         IN IF o <= Len(b) THEN b[o] ELSE 0]
AbsTarget(d, i) == LET L == {x \in Rng(d.links) : x.ino = i}
                   IN IF L = {} THEN <<>> ELSE (CHOOSE x \in L : TRUE).target

SameAttrs(r, m) == /\ r.mode = m.mode /\ r.nlink = m.nlink /\ r.uid = m.uid /\ r.gid = m.gid
                   /\ r.size = m.size /\ r.rdev = m.rdev /\ r.locked = m.locked
                   /\ r.at = m.at /\ r.mt = m.mt /\ r.ct = m.ct

Refinement(s, d) ==
    IF {i.id : i \in Rng(d.inodes)} \ {CTRL} # DOMAIN s.ino THEN "set of inodes differs from model"
    ELSE IF AbsDent(d) # s.dent THEN "directory tree differs from model"
    ELSE IF \E r \in Rng(d.inodes) : r.id # CTRL /\ ~SameAttrs(r, s.ino[r.id]) THEN "inode attributes differ from model"
    ELSE IF \E i \in DOMAIN s.ino : AbsXa(d, i) # s.ino[i].xa THEN "extended attributes differ from model"
    ELSE IF \E i \in DOMAIN s.ino : AbsTarget(d, i) # s.ino[i].target THEN "symlink target differs from model"
    ELSE IF d.full /\ \E i \in DOMAIN s.ino : AbsData(d, i, s.ino[i].size, s.bs) # s.ino[i].data
         THEN "file contents in backend differ from model"
    ELSE ""

DumpVerdict(s, d, J) ==
    LET c == IF "cons" \in J THEN Consistency(d, s.bs) ELSE "" IN
    IF c # "" THEN c
    ELSE LET b == IF d.full /\ "store" \in J THEN BackendAgrees(d) ELSE "" IN
         IF b # "" THEN b ELSE IF "abs" \in J THEN Refinement(s, d) ELSE ""
=============================================================================
