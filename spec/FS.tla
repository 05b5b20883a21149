--------------------------------- MODULE FS ---------------------------------
(***************************************************************************)
(* Specification of the stable-fs file system: its abstract state, and one *)
(* named operator per call of the public interface giving the next state   *)
(* and the result of the call.                                             *)
(*                                                                         *)
(* Abstraction.  A file offset is an index 0..NG-1 into a GRID of concrete *)
(* offsets that is chosen when a behaviour is replayed (around chunk       *)
(* boundaries, cache windows, memory pages, the format maximum ...).       *)
(* Cell i (1..NG-1) is the byte range between grid points i-1 and i; the   *)
(* content of a cell is 0 (never written) or the tag of the write that     *)
(* covered it.  Objects and descriptors have abstract identities; the      *)
(* conformance harness maintains the bijection with the real ones.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    MaxNodes,   \* number of object identities
    MaxFds,     \* number of descriptor identities (1 is the root descriptor)
    NMem,       \* number of mountable memories
    Names,      \* legal component names
    LongName,   \* a component longer than 255 bytes
    NG,         \* number of grid points
    MaxIdx,     \* greatest grid index not beyond the maximum file size
    PageUp,     \* PageUp[i+1]: grid index of grid point i rounded up to pages
    Mem0        \* initial page index of each memory

Root == 1
Cells == 1..(NG-1)
NoData == [i \in Cells |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* bit masks *)
Bit(x, b) == (x \div b) % 2 = 1
CREATE == 1
DIRECTORY == 2
EXCLUSIVE == 4
TRUNCATE == 8
READ == 1
WRITE == 2
APPEND == 4
NONBLOCK == 8

-----------------------------------------------------------------------------
(* State.  nodes: object table; fds: descriptor table; mem: the memories;
   cf: the configuration of the storage: cs the chunk size (0..4, relative to the
   one the run begins with), used whether anything has been stored yet, ct the
   kind of chunks of new files. *)

Dead == [ty |-> "x", lc |-> 0, sz |-> 0, lim |-> -1, dat |-> <<>>,
         ents |-> <<>>, tm |-> <<0, 0, 0>>, mem |-> 0, mm |-> <<>>, ck |-> 0]
NewDir(ct)  == [Dead EXCEPT !.ty = "d", !.lc = 1, !.tm = <<ct, ct, ct>>]
(* ck: the kind of chunks a file is stored in *)
NewFile(ct, ck) == [Dead EXCEPT !.ty = "f", !.lc = 1, !.tm = <<ct, ct, ct>>, !.dat = NoData, !.ck = ck]

Closed == [k |-> "x", n |-> 0, cur |-> 0, st |-> 0]
RootFd == [k |-> "d", n |-> Root, cur |-> 0, st |-> 3]

InitState ==
    [nodes |-> [i \in 1..MaxNodes |-> IF i = Root THEN NewDir(0) ELSE Dead],
     fds   |-> [i \in 1..MaxFds |-> IF i = 1 THEN RootFd ELSE Closed],
     mem   |-> [i \in 1..NMem |-> [c |-> NoData, pg |-> Mem0[i]]],
     cf    |-> [cs |-> 0, used |-> FALSE, ct |-> 2]]

Ret(s, r) == [s |-> s, r |-> r]
Ok(v)   == [e |-> "ok", v |-> v]
Fail(e) == [e |-> e, v |-> <<>>]

FreeNodes(s) == {i \in 1..MaxNodes : s.nodes[i].ty = "x"}
FreeSlots(s) == {i \in 1..MaxFds : s.fds[i].k = "x"}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

OpenOn(s, n) == \E i \in 1..MaxFds : s.fds[i].k # "x" /\ s.fds[i].n = n

-----------------------------------------------------------------------------
(* Attributes as seen by the user: those of the mount while mounted. *)

Mounted(s, n) == s.nodes[n].mem # 0
SizeOf(s, n) == LET d == s.nodes[n] IN
    IF d.ty = "d" THEN Len(d.ents) ELSE IF d.mem # 0 THEN d.mm[1].sz ELSE d.sz
LimOf(s, n)  == LET d == s.nodes[n] IN IF d.mem # 0 THEN d.mm[1].lim ELSE d.lim
TmOf(s, n)   == LET d == s.nodes[n] IN IF d.mem # 0 THEN d.mm[1].tm ELSE d.tm
(* effective limit: the configured one, never beyond the format maximum *)
Cap(lim) == IF lim = -1 THEN MaxIdx ELSE Min(lim, MaxIdx)
DataOf(s, n) == LET d == s.nodes[n] IN IF d.mem # 0 THEN s.mem[d.mem].c ELSE d.dat

(* Set the size: content beyond the new size is gone; a mounted memory keeps its bytes. *)
SetSize(s, n, z) ==
    IF Mounted(s, n)
    THEN [s EXCEPT !.nodes[n].mm[1].sz = z]
    ELSE [s EXCEPT !.nodes[n].sz = z,
                   !.nodes[n].dat = [i \in Cells |-> IF i <= z THEN @[i] ELSE 0]]
SetLim(s, n, z) == IF Mounted(s, n) THEN [s EXCEPT !.nodes[n].mm[1].lim = z]
                                    ELSE [s EXCEPT !.nodes[n].lim = z]
SetTm(s, n, k, t) == IF Mounted(s, n) THEN [s EXCEPT !.nodes[n].mm[1].tm[k] = t]
                                      ELSE [s EXCEPT !.nodes[n].tm[k] = t]

(* Overwrite cells from+1..to with tag v and extend the size. *)
PutCells(s, n, from, to, v) ==
    LET upd(dat) == [i \in Cells |-> IF i > from /\ i <= to THEN v ELSE dat[i]]
        m == s.nodes[n].mem
    IN IF m # 0
       THEN [s EXCEPT !.nodes[n].mm[1].sz = Max(@, to),
                      !.mem[m].c = upd(@), !.mem[m].pg = Max(@, PageUp[to + 1])]
       ELSE [s EXCEPT !.nodes[n].sz = Max(@, to), !.nodes[n].dat = upd(@)]

-----------------------------------------------------------------------------
(* Paths: sequences of components, rendered joined by "/". *)

RECURSIVE NormR(_, _)
NormR(p, acc) ==
    IF p = <<>> THEN [e |-> "ok", ps |-> acc]
    ELSE IF Head(p) = ".."
         THEN IF acc = <<>> THEN [e |-> "OperationNotPermitted", ps |-> <<>>]
              ELSE NormR(Tail(p), SubSeq(acc, 1, Len(acc) - 1))
    ELSE IF Head(p) \in {"", "."} THEN NormR(Tail(p), acc)
    ELSE NormR(Tail(p), Append(acc, Head(p)))

(* a leading empty component is a leading separator: an absolute path *)
Norm(p) == IF Len(p) > 1 /\ p[1] = "" THEN [e |-> "OperationNotPermitted", ps |-> <<>>]
           ELSE NormR(p, <<>>)

EntIdx(s, d, nm) ==
    LET es == s.nodes[d].ents
        S == {i \in 1..Len(es) : es[i][1] = nm}
    IN IF S = {} THEN 0 ELSE Least(S)

RECURSIVE Walk(_, _, _, _, _)
Walk(s, cur, par, nm, ps) ==
    IF ps = <<>> THEN [e |-> "ok", n |-> cur, par |-> par, nm |-> nm]
    ELSE IF Head(ps) = LongName THEN [e |-> "FilenameTooLong", n |-> 0, par |-> 0, nm |-> ""]
    ELSE LET i == EntIdx(s, cur, Head(ps)) IN
         IF i = 0 THEN [e |-> "NoSuchFileOrDirectory", n |-> 0, par |-> 0, nm |-> ""]
         ELSE Walk(s, s.nodes[cur].ents[i][2], cur, Head(ps), Tail(ps))

(* par = 0 when the path denotes the starting directory itself *)
Find(s, d, p) ==
    LET q == Norm(p) IN
    IF q.e # "ok" THEN [e |-> q.e, n |-> 0, par |-> 0, nm |-> ""]
    ELSE Walk(s, d, 0, "", q.ps)

(* Create all missing components of ps below d; the last one is an object of
   type leaf ("d"/"f") or, for "", is not created. Returns the last existing
   directory (par), the new object (n) and the state. *)
RECURSIVE Build(_, _, _, _, _)
Build(s, cur, ps, leaf, ct) ==
    LET i == IF Head(ps) = LongName THEN 0 ELSE EntIdx(s, cur, Head(ps)) IN
    IF i # 0 THEN Build(s, s.nodes[cur].ents[i][2], Tail(ps), leaf, ct)
    ELSE IF s.nodes[cur].ty # "d"
         THEN [e |-> "InvalidArgument", s |-> s, n |-> 0, par |-> 0, nm |-> ""]
    ELSE IF Len(ps) = 1 /\ leaf = ""
         THEN [e |-> "ok", s |-> s, n |-> 0, par |-> cur, nm |-> Head(ps)]
    ELSE LET id == Least(FreeNodes(s))
             nd == IF Len(ps) = 1 /\ leaf = "f" THEN NewFile(ct, s.cf.ct) ELSE NewDir(ct)
             t  == [s EXCEPT !.nodes[id] = nd,
                             !.nodes[cur].ents = Append(@, <<Head(ps), id>>)]
         IN IF Len(ps) = 1 THEN [e |-> "ok", s |-> t, n |-> id, par |-> cur, nm |-> Head(ps)]
            ELSE Build(t, id, Tail(ps), leaf, ct)

(* precondition: Find(s, d, p).e = "NoSuchFileOrDirectory" *)
Create(s, d, p, leaf, ct) ==
    LET q == Norm(p) IN
    IF \E i \in 1..Len(q.ps) : q.ps[i] = LongName
    THEN [e |-> "FilenameTooLong", s |-> s, n |-> 0, par |-> 0, nm |-> ""]
    ELSE LET b == Build(s, d, q.ps, leaf, ct) IN
         IF b.e = "ok" THEN b ELSE [b EXCEPT !.s = s]

-----------------------------------------------------------------------------
(* Descriptors *)

Kind(s, fd) == IF fd \in 1..MaxFds THEN s.fds[fd].k ELSE "x"
DirErr(s, fd) == CASE Kind(s, fd) = "d" -> "ok"
                   [] Kind(s, fd) = "f" -> "NotADirectoryOrSymbolicLink"
                   [] OTHER -> "BadFileDescriptor"
FileErr(s, fd) == IF Kind(s, fd) = "f" THEN "ok" ELSE "BadFileDescriptor"

NewFd(s, n, st) ==
    LET sl == Least(FreeSlots(s))
        f  == s.nodes[n].ty = "f"
        rec == [k |-> s.nodes[n].ty, n |-> n, st |-> st,
                cur |-> IF f /\ Bit(st, APPEND) THEN SizeOf(s, n) ELSE 0]
    IN Ret([s EXCEPT !.fds[sl] = rec], Ok(<<sl>>))

OpenNode(s, n, st, fl) ==
    IF s.nodes[n].ty = "d" THEN NewFd(s, n, st)
    ELSE IF Bit(fl, DIRECTORY) THEN Ret(s, Fail("OperationNotPermitted"))
    ELSE NewFd(IF Bit(fl, TRUNCATE) THEN SetSize(s, n, 0) ELSE s, n, st)

-----------------------------------------------------------------------------
(* The calls.  Each DoX(s, op) yields [s |-> next state, r |-> result]. *)

DoOpen(s, op) ==
    LET de == DirErr(s, op.fd) IN
    IF de # "ok" THEN Ret(s, Fail(de)) ELSE
    LET d == s.fds[op.fd].n
        f == Find(s, d, op.p) IN
    IF f.e = "ok" THEN
        IF Bit(op.fl, CREATE) /\ Bit(op.fl, EXCLUSIVE) THEN Ret(s, Fail("FileExists"))
        ELSE OpenNode(s, f.n, op.st, op.fl)
    ELSE IF f.e # "NoSuchFileOrDirectory" \/ ~Bit(op.fl, CREATE) THEN Ret(s, Fail(f.e))
    ELSE LET c == Create(s, d, op.p, IF Bit(op.fl, DIRECTORY) THEN "d" ELSE "f", op.t) IN
         IF c.e # "ok" THEN Ret(s, Fail(c.e)) ELSE NewFd(c.s, c.n, op.st)

MkdirCore(s, op, open) ==
    LET de == DirErr(s, op.fd) IN
    IF de # "ok" THEN Ret(s, Fail(de)) ELSE
    LET d == s.fds[op.fd].n
        f == Find(s, d, op.p) IN
    IF f.e = "ok" THEN Ret(s, Fail("FileExists"))
    ELSE IF f.e # "NoSuchFileOrDirectory" THEN Ret(s, Fail(f.e))
    ELSE LET c == Create(s, d, op.p, "d", op.t) IN
         IF c.e # "ok" THEN Ret(s, Fail(c.e))
         ELSE IF open THEN NewFd(c.s, c.n, op.st) ELSE Ret(c.s, Ok(<<>>))
DoMkdir(s, op)     == MkdirCore(s, op, FALSE)
DoMkdirOpen(s, op) == MkdirCore(s, op, TRUE)

DoClose(s, op) ==
    IF op.fd = 1 THEN Ret(s, Ok(<<>>))
    ELSE IF Kind(s, op.fd) = "x" THEN Ret(s, Fail("BadFileDescriptor"))
    ELSE Ret([s EXCEPT !.fds[op.fd] = Closed], Ok(<<>>))

(* op.fd is renumbered to op.to *)
DoRenumber(s, op) ==
    LET a == Kind(s, op.fd)
        b == Kind(s, op.to) IN
    IF a = "x" \/ ((op.fd = 1 \/ op.to = 1) /\ op.fd # op.to) \/ (b # "x" /\ a # b)
    THEN Ret(s, Fail("BadFileDescriptor"))
    ELSE IF op.fd = op.to THEN Ret(s, Ok(<<>>))
    ELSE Ret([s EXCEPT !.fds[op.to] = s.fds[op.fd], !.fds[op.fd] = Closed], Ok(<<>>))

(* op.bs: boundaries of the buffers; op.m: "cur" (at the cursor) or "off". *)
RECURSIVE WriteSegs(_, _, _, _)
WriteSegs(s, n, bs, v) ==   \* returns [e, s]
    IF Len(bs) < 2 THEN [e |-> "ok", s |-> s]
    ELSE IF bs[1] = bs[2] THEN WriteSegs(s, n, Tail(bs), v)
    ELSE IF bs[2] > Cap(LimOf(s, n)) THEN [e |-> "FileTooLarge", s |-> s]
    ELSE WriteSegs(PutCells(s, n, bs[1], bs[2], v), n, Tail(bs), v)

WriteStart(s, op) ==   \* where the data goes
    LET f == s.fds[op.fd] IN
    IF Bit(f.st, APPEND) THEN SizeOf(s, f.n)
    ELSE IF op.m = "cur" THEN f.cur ELSE op.bs[1]

DoWrite(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE
    LET f == s.fds[op.fd] IN
    IF ~Bit(f.st, WRITE) THEN Ret(s, Fail("OperationNotPermitted")) ELSE
    IF WriteStart(s, op) # op.bs[1] THEN Ret(s, Fail("!start")) ELSE
    LET w == WriteSegs(s, f.n, op.bs, op.v)
        last == op.bs[Len(op.bs)] IN
    IF w.e # "ok" THEN Ret(w.s, Fail(w.e))
    ELSE Ret(IF op.m = "cur" THEN [w.s EXCEPT !.fds[op.fd].cur = last] ELSE w.s,
             Ok(<<op.bs[1], last>>))

(* result: <<start, end>> followed by the tags of the cells read *)
DoRead(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE
    LET f == s.fds[op.fd] IN
    IF ~Bit(f.st, READ) THEN Ret(s, Fail("OperationNotPermitted")) ELSE
    LET from == op.bs[1] IN
    IF op.m = "cur" /\ from # f.cur THEN Ret(s, Fail("!start")) ELSE
    LET to == Max(from, Min(op.bs[Len(op.bs)], SizeOf(s, f.n)))
        dat == DataOf(s, f.n)
        m == s.nodes[f.n].mem
        t == IF m # 0 /\ to > from THEN [s EXCEPT !.mem[m].pg = Max(@, PageUp[to + 1])] ELSE s
    IN Ret(IF op.m = "cur" THEN [t EXCEPT !.fds[op.fd].cur = to] ELSE t,
           Ok(<<from, to>> \o [i \in 1..(to - from) |-> dat[from + i]]))

(* op.bad: a position before the start of the file is requested *)
DoSeek(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE
    LET f == s.fds[op.fd] IN
    IF op.bad = 1 THEN Ret(s, Fail(IF op.w = "end" THEN "InvalidSeek" ELSE "InvalidArgument"))
    ELSE IF op.w = "end" /\ op.to > SizeOf(s, f.n) THEN Ret(s, Fail("InvalidSeek"))
    ELSE Ret([s EXCEPT !.fds[op.fd].cur = op.to], Ok(<<op.to>>))

DoTell(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE Ret(s, Ok(<<s.fds[op.fd].cur>>))

DoFlush(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE Ret(s, Ok(<<>>))

(* advice and allocate: accepted for files, without effect *)
DoAdvise(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE Ret(s, Ok(<<>>))

ResizeCore(s, n, z) ==
    IF z > Cap(LimOf(s, n)) THEN Ret(s, Fail("FileTooLarge")) ELSE Ret(SetSize(s, n, z), Ok(<<>>))

DoSetSize(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE
    LET f == s.fds[op.fd] IN
    IF ~Bit(f.st, WRITE) THEN Ret(s, Fail("InvalidArgument")) ELSE ResizeCore(s, f.n, op.to)

(* set_metadata with another size: no right is needed *)
DoSetMeta(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE ResizeCore(s, s.fds[op.fd].n, op.to)

(* set_metadata with possibly outdated attributes: times, size and limit are taken over,
   type and identity cannot be changed (op.k), links and entries are not affected *)
DoSetAll(s, op) ==
    LET k == Kind(s, op.fd) IN
    IF k = "x" THEN Ret(s, Fail("BadFileDescriptor"))
    ELSE IF op.k = "type" THEN Ret(s, Fail("FunctionNotSupported"))
    ELSE IF op.k = "node" THEN Ret(s, Fail("IllegalByteSequence")) ELSE
    LET n == s.fds[op.fd].n
        t == SetTm(SetTm(s, n, 2, op.t), n, 3, op.t) IN
    IF k = "d" THEN Ret(t, Ok(<<>>))
    ELSE IF op.to > Cap(op.lim) THEN Ret(s, Fail("FileTooLarge"))
    ELSE Ret(SetLim(SetSize(t, n, op.to), n, op.lim), Ok(<<>>))

DoSetLimit(s, op) ==
    LET fe == FileErr(s, op.fd) IN
    IF fe # "ok" THEN Ret(s, Fail(fe)) ELSE
    LET n == s.fds[op.fd].n IN
    IF SizeOf(s, n) > op.to THEN Ret(s, Fail("FileTooLarge")) ELSE Ret(SetLim(s, n, op.to), Ok(<<>>))

(* op.w = 2: modification time, 3: access time *)
DoSetTime(s, op) ==
    IF Kind(s, op.fd) = "x" THEN Ret(s, Fail("BadFileDescriptor"))
    ELSE Ret(SetTm(s, s.fds[op.fd].n, op.w, op.t), Ok(<<>>))

DoSetStat(s, op) ==
    IF Kind(s, op.fd) = "x" \/ (Kind(s, op.fd) = "d" /\ (Bit(op.st, APPEND) \/ Bit(op.st, NONBLOCK)))
    THEN Ret(s, Fail("BadFileDescriptor"))
    ELSE Ret([s EXCEPT !.fds[op.fd].st = op.st], Ok(<<>>))

(* Remove the entry p of directory d.  want: "d", "f" or "any" *)
RmEntry(s, d, p, want) ==
    LET f == Find(s, d, p) IN
    IF f.e # "ok" THEN Ret(s, Fail(f.e)) ELSE
    LET nd == s.nodes[f.n] IN
    IF nd.mem # 0 THEN Ret(s, Fail("TextFileBusy"))
    ELSE IF nd.ty = "d" /\ want = "f" THEN Ret(s, Fail("IsDirectory"))
    ELSE IF nd.ty = "d" /\ nd.ents # <<>> THEN Ret(s, Fail("DirectoryNotEmpty"))
    ELSE IF nd.ty = "f" /\ want = "d" THEN Ret(s, Fail("NotADirectoryOrSymbolicLink"))
    ELSE IF nd.lc = 1 /\ OpenOn(s, f.n) THEN Ret(s, Fail("TextFileBusy"))
    ELSE LET i == EntIdx(s, f.par, f.nm)
             es == s.nodes[f.par].ents
             t == [s EXCEPT !.nodes[f.par].ents = SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))]
         IN Ret([t EXCEPT !.nodes[f.n] = IF nd.lc = 1 THEN Dead ELSE [nd EXCEPT !.lc = @ - 1]], Ok(<<>>))

DoUnlink(s, op) ==
    LET de == DirErr(s, op.fd) IN
    IF de # "ok" THEN Ret(s, Fail(de)) ELSE RmEntry(s, s.fds[op.fd].n, op.p, "f")
DoRmdir(s, op) ==
    LET de == DirErr(s, op.fd) IN
    IF de # "ok" THEN Ret(s, Fail(de)) ELSE RmEntry(s, s.fds[op.fd].n, op.p, "d")

(* Remove everything below directory n in listing order, depth first, up to
   the first object that is protected. *)
RECURSIVE Clear(_, _, _)
Clear(s, n, names) ==    \* returns [ok, s]
    IF names = <<>> THEN [ok |-> TRUE, s |-> s]
    ELSE LET nm == Head(names)[1]
             c  == Head(names)[2]
             x  == IF s.nodes[c].ty = "d" THEN Clear(s, c, s.nodes[c].ents) ELSE [ok |-> TRUE, s |-> s]
             y  == RmEntry(x.s, n, <<nm>>, "any")
         IN IF y.r.e # "ok" THEN [ok |-> FALSE, s |-> y.s] ELSE Clear(y.s, n, Tail(names))

DoRmRec(s, op) ==
    LET de == DirErr(s, op.fd) IN
    IF de # "ok" THEN Ret(s, Fail(de)) ELSE
    LET d == s.fds[op.fd].n
        f == Find(s, d, op.p) IN
    IF f.e # "ok" THEN Ret(s, Fail(f.e))
    ELSE IF s.nodes[f.n].ty = "f" THEN RmEntry(s, d, op.p, "f")
    ELSE RmEntry(Clear(s, f.n, s.nodes[f.n].ents).s, d, op.p, "d")

(* n is m or lies below m *)
RECURSIVE Below(_, _, _)
Below(s, n, m) == n = m \/ \E i \in 1..Len(s.nodes[m].ents) : Below(s, n, s.nodes[m].ents[i][2])

(* the deepest existing directory on the way to p *)
RECURSIVE Deepest(_, _, _)
Deepest(s, d, ps) ==
    IF ps = <<>> THEN d
    ELSE LET i == EntIdx(s, d, Head(ps)) IN IF i = 0 THEN d ELSE Deepest(s, s.nodes[d].ents[i][2], Tail(ps))

(* Common part of link and rename: give object (sd, p1) the additional name (dd, p2).
   Result [e, s, n, done]: done means both names are the same object already. *)
AddName(s, sd, p1, dd, p2, ren) ==
    LET f1 == Find(s, sd, p1)
        bad(e) == [e |-> e, s |-> s, n |-> 0, done |-> FALSE] IN
    IF f1.e # "ok" THEN bad(f1.e) ELSE
    LET n == f1.n
        isd == s.nodes[n].ty = "d" IN
    IF isd /\ ~ren THEN bad("OperationNotPermitted")
    ELSE IF f1.par = 0 THEN bad("InvalidArgument")
    ELSE IF ren /\ Mounted(s, n) THEN bad("TextFileBusy") ELSE
    LET f2 == Find(s, dd, p2) IN
    IF f2.e \notin {"ok", "NoSuchFileOrDirectory"} THEN bad(f2.e)
    ELSE IF f2.e = "ok" /\ f2.n = n THEN [e |-> "ok", s |-> s, n |-> n, done |-> TRUE]
    ELSE IF f2.e = "ok" /\ s.nodes[f2.n].ty # s.nodes[n].ty
         THEN bad(IF isd THEN "NotADirectoryOrSymbolicLink" ELSE "PermissionDenied")
    ELSE IF isd /\ LET x == Deepest(s, dd, Norm(p2).ps) IN s.nodes[x].ty = "d" /\ Below(s, x, n)
         THEN bad("InvalidArgument") ELSE
    LET r == IF f2.e = "ok" THEN RmEntry(s, dd, p2, "any") ELSE Ret(s, Ok(<<>>)) IN
    IF r.r.e # "ok" THEN bad(r.r.e) ELSE
    LET c == Create(r.s, dd, p2, "", s.nodes[n].tm[1]) IN
    IF c.e # "ok" THEN bad(c.e) ELSE
    [e |-> "ok", n |-> n, done |-> FALSE,
     s |-> [c.s EXCEPT !.nodes[n].lc = @ + 1, !.nodes[c.par].ents = Append(@, <<c.nm, n>>)]]

DoLink(s, op) ==
    IF DirErr(s, op.fd) # "ok" THEN Ret(s, Fail(DirErr(s, op.fd)))
    ELSE IF DirErr(s, op.fd2) # "ok" THEN Ret(s, Fail(DirErr(s, op.fd2))) ELSE
    LET a == AddName(s, s.fds[op.fd].n, op.p, s.fds[op.fd2].n, op.p2, FALSE) IN
    IF a.e # "ok" THEN Ret(s, Fail(a.e)) ELSE NewFd(a.s, a.n, 3)

DoRename(s, op) ==
    IF DirErr(s, op.fd) # "ok" THEN Ret(s, Fail(DirErr(s, op.fd)))
    ELSE IF DirErr(s, op.fd2) # "ok" THEN Ret(s, Fail(DirErr(s, op.fd2))) ELSE
    LET sd == s.fds[op.fd].n
        a == AddName(s, sd, op.p, s.fds[op.fd2].n, op.p2, TRUE) IN
    IF a.e # "ok" THEN Ret(s, Fail(a.e))
    ELSE IF a.done THEN NewFd(a.s, a.n, 3) ELSE
    LET f == Find(s, sd, op.p)
        i == EntIdx(a.s, f.par, f.nm)
        es == a.s.nodes[f.par].ents
        t == [a.s EXCEPT !.nodes[f.par].ents = SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))]
    IN NewFd([t EXCEPT !.nodes[a.n].lc = @ - 1], a.n, 3)

(* mounting: op.p from the root, op.m the memory, op.pol the policy, op.to the explicit size.
   One leading separator is accepted here: these paths start at the root anyway. *)
Strip(p) == IF Len(p) > 1 /\ p[1] = "" THEN Tail(p) ELSE p

MountSize(s, n, m, pol, to) ==
    LET d == s.nodes[n]
        prev == d.mm # <<>> /\ d.mm[1].sz <= s.mem[m].pg IN
    CASE pol = "zero"     -> IF prev THEN d.mm[1].sz ELSE 0
      [] pol = "prevpages" -> IF prev THEN d.mm[1].sz ELSE s.mem[m].pg
      [] pol = "explicit" -> to
      [] OTHER            -> s.mem[m].pg

DoMount(s, op) ==
    \* no file is created for a memory that cannot be mounted on it
    IF Find(s, Root, Strip(op.p)).e = "NoSuchFileOrDirectory" /\ op.pol = "explicit" /\ op.to > MaxIdx
    THEN Ret(s, Fail("FileTooLarge")) ELSE
    LET o == DoOpen(s, [fd |-> 1, p |-> Strip(op.p), fl |-> CREATE, st |-> 3, t |-> 0]) IN
    IF o.r.e # "ok" THEN Ret(s, Fail(o.r.e)) ELSE
    LET n == o.s.fds[o.r.v[1]].n
        t == [o.s EXCEPT !.fds[o.r.v[1]] = Closed] IN
    IF t.nodes[n].ty = "d" THEN Ret(t, Fail("BadFileDescriptor"))
    ELSE IF Mounted(t, n) THEN Ret(t, Fail("DeviceOrResourceBusy")) ELSE
    LET d == t.nodes[n]
        base == IF d.mm # <<>> THEN d.mm[1] ELSE [sz |-> d.sz, lim |-> d.lim, tm |-> d.tm]
        z == MountSize(t, n, op.m, op.pol, op.to) IN
    IF z > Cap(base.lim) THEN Ret(t, Fail("FileTooLarge"))
    ELSE Ret([t EXCEPT !.nodes[n].mem = op.m, !.nodes[n].mm = <<[base EXCEPT !.sz = z]>>], Ok(<<>>))

(* unmount, init and store open the file first *)
HostErr(s, p) ==
    LET f == Find(s, Root, p) IN
    IF f.e # "ok" THEN f.e ELSE IF s.nodes[f.n].ty = "d" THEN "BadFileDescriptor"
    ELSE IF ~Mounted(s, f.n) THEN "NoSuchDevice" ELSE "ok"

DoUnmount(s, op) ==
    LET e == HostErr(s, Strip(op.p)) IN
    IF e # "ok" THEN Ret(s, Fail(e)) ELSE
    LET n == Find(s, Root, Strip(op.p)).n IN
    Ret([s EXCEPT !.nodes[n].mem = 0], Ok(<<s.nodes[n].mem>>))

DoInit(s, op) ==
    LET e == HostErr(s, Strip(op.p)) IN
    IF e # "ok" THEN Ret(s, Fail(e)) ELSE
    LET n == Find(s, Root, Strip(op.p)).n
        d == s.nodes[n] IN
    Ret([s EXCEPT !.mem[d.mem].c = [i \in Cells |-> IF i <= d.sz THEN d.dat[i] ELSE @[i]],
                  !.mem[d.mem].pg = Max(@, PageUp[d.sz + 1]),
                  !.nodes[n].mm = <<[sz |-> d.sz, lim |-> d.lim, tm |-> d.tm]>>], Ok(<<>>))

DoStore(s, op) ==
    LET e == HostErr(s, Strip(op.p)) IN
    IF e # "ok" THEN Ret(s, Fail(e)) ELSE
    LET n == Find(s, Root, Strip(op.p)).n
        d == s.nodes[n]
        z == d.mm[1].sz IN
    Ret([s EXCEPT !.mem[d.mem].pg = Max(@, PageUp[z + 1]),
                  !.nodes[n].sz = z, !.nodes[n].lim = d.mm[1].lim, !.nodes[n].tm = d.mm[1].tm,
                  !.nodes[n].dat = [i \in Cells |-> IF i <= z THEN s.mem[d.mem].c[i] ELSE 0]], Ok(<<>>))

(* upgrade: the file system is opened again on the same stable memory *)
DoUpgrade(s, op) ==
    Ret([s EXCEPT !.fds = [i \in 1..MaxFds |-> IF i = 1 THEN RootFd ELSE Closed],
                  !.nodes = [i \in 1..MaxNodes |-> [@[i] EXCEPT !.mem = 0]],
                  !.cf.ct = 2], Ok(<<>>))

(* the chunk size can be chosen as long as nothing was stored *)
DoSetChunkSize(s, op) ==
    IF op.to = s.cf.cs THEN Ret(s, Ok(<<op.to>>))
    ELSE IF s.cf.used THEN Ret(s, Fail("InvalidArgument"))
    ELSE Ret([s EXCEPT !.cf.cs = op.to], Ok(<<op.to>>))
(* the kind of chunks of files created from now on *)
(* an episode: many calls that leave the state as it was, see Bulk.tla *)
DoBulk(s, op) == IF DirErr(s, op.fd) = "ok" THEN Ret([s EXCEPT !.cf.used = TRUE], Ok(<<>>)) ELSE Ret(s, Fail(DirErr(s, op.fd)))

DoSetChunkType(s, op) == Ret([s EXCEPT !.cf.ct = op.to], Ok(<<>>))

DoCall(s, op) ==
    CASE op.o = "open"    -> DoOpen(s, op)
      [] op.o = "mkdir"   -> DoMkdir(s, op)
      [] op.o = "mkdiro"  -> DoMkdirOpen(s, op)
      [] op.o = "close"   -> DoClose(s, op)
      [] op.o = "renum"   -> DoRenumber(s, op)
      [] op.o = "write"   -> DoWrite(s, op)
      [] op.o = "read"    -> DoRead(s, op)
      [] op.o = "seek"    -> DoSeek(s, op)
      [] op.o = "tell"    -> DoTell(s, op)
      [] op.o = "flush"   -> DoFlush(s, op)
      [] op.o = "advise"  -> DoAdvise(s, op)
      [] op.o = "setsize" -> DoSetSize(s, op)
      [] op.o = "setmeta" -> DoSetMeta(s, op)
      [] op.o = "setall"  -> DoSetAll(s, op)
      [] op.o = "setlim"  -> DoSetLimit(s, op)
      [] op.o = "settime" -> DoSetTime(s, op)
      [] op.o = "setstat" -> DoSetStat(s, op)
      [] op.o = "unlink"  -> DoUnlink(s, op)
      [] op.o = "rmdir"   -> DoRmdir(s, op)
      [] op.o = "rmrec"   -> DoRmRec(s, op)
      [] op.o = "link"    -> DoLink(s, op)
      [] op.o = "rename"  -> DoRename(s, op)
      [] op.o = "mount"   -> DoMount(s, op)
      [] op.o = "unmount" -> DoUnmount(s, op)
      [] op.o = "initm"   -> DoInit(s, op)
      [] op.o = "storem"  -> DoStore(s, op)
      [] op.o = "upgrade" -> DoUpgrade(s, op)
      [] op.o = "setcs"   -> DoSetChunkSize(s, op)
      [] op.o = "setct"   -> DoSetChunkType(s, op)
      [] op.o = "bulk"    -> DoBulk(s, op)

(* any attribute or content that is stored takes a chunk, for good *)
Do(s, op) ==
    LET x == DoCall(s, op) IN
    IF ~s.cf.used /\ (x.s.nodes # s.nodes \/ (op.o \in {"settime", "setall"} /\ x.r.e = "ok"))
    THEN [x EXCEPT !.s.cf.used = TRUE] ELSE x

-----------------------------------------------------------------------------
(* What must hold of every reachable state. *)

Live(s) == {n \in 1..MaxNodes : s.nodes[n].ty # "x"}
EntryRefs(s, n) == UNION {{<<d, i>> : i \in {j \in 1..Len(s.nodes[d].ents) : s.nodes[d].ents[j][2] = n}} : d \in Live(s)}

TypeOK(s) ==
    /\ \A n \in 1..MaxNodes :
         LET d == s.nodes[n] IN
         /\ d.ty \in {"x", "d", "f"}
         /\ d.ty = "x" => d = Dead
         /\ d.ty = "d" => d.sz = 0 /\ d.dat = <<>> /\ d.mem = 0 /\ d.mm = <<>> /\ d.lim = -1 /\ d.ck = 0
         /\ d.ty = "f" => d.ents = <<>> /\ d.ck \in {1, 2} /\ d.sz \in 0..(NG-1) /\ d.lim \in -1..(NG-1) /\ DOMAIN d.dat = Cells
         /\ d.mem \in 0..NMem /\ (d.mem # 0 => Len(d.mm) = 1)
    /\ s.nodes[Root].ty = "d"
    /\ s.fds[1].k = "d" /\ s.fds[1].n = Root
    /\ s.cf.cs \in 0..4 /\ s.cf.ct \in {1, 2}
    /\ ~s.cf.used => Live(s) = {Root}

(* C05: link counts *)
LinkCounts(s) == \A n \in Live(s) \ {Root} : s.nodes[n].lc = Cardinality(EntryRefs(s, n))
(* C04: names are unique and entries refer to live objects *)
NamesUnique(s) == \A d \in Live(s) : \A i, j \in 1..Len(s.nodes[d].ents) :
                     i # j => s.nodes[d].ents[i][1] # s.nodes[d].ents[j][1]
NoDangling(s) == /\ \A d \in Live(s) : \A i \in 1..Len(s.nodes[d].ents) : s.nodes[s.nodes[d].ents[i][2]].ty # "x"
                 /\ \A f \in 1..MaxFds : s.fds[f].k # "x" => s.nodes[s.fds[f].n].ty = s.fds[f].k
(* C06: directories form a tree with a single root; files hang below it *)
RECURSIVE Reach(_, _)
Reach(s, S) == LET T == S \cup UNION {{s.nodes[d].ents[i][2] : i \in 1..Len(s.nodes[d].ents)} : d \in S}
               IN IF T = S THEN S ELSE Reach(s, T)
TreeOK(s) == /\ Reach(s, {Root}) = Live(s)
             /\ EntryRefs(s, Root) = {}
             /\ \A n \in Live(s) \ {Root} : s.nodes[n].ty = "d" => Cardinality(EntryRefs(s, n)) = 1
(* C12: limits *)
LimitsOK(s) == \A n \in Live(s) : s.nodes[n].ty = "f" =>
                  /\ s.nodes[n].sz <= Cap(s.nodes[n].lim)
                  /\ (s.nodes[n].mm # <<>> => s.nodes[n].mm[1].sz <= Cap(s.nodes[n].mm[1].lim))
(* C02: nothing is stored beyond the end of a file *)
TailZero(s) == \A n \in Live(s) : s.nodes[n].ty = "f" => \A i \in Cells : i > s.nodes[n].sz => s.nodes[n].dat[i] = 0
(* C13: at most one mount per memory is assumed by the environment *)
MountsOK(s) == \A n \in Live(s) : s.nodes[n].mem # 0 => s.nodes[n].ty = "f"

StateOK(s) == TypeOK(s) /\ LinkCounts(s) /\ NamesUnique(s) /\ NoDangling(s) /\ TreeOK(s)
              /\ LimitsOK(s) /\ TailZero(s) /\ MountsOK(s)

-----------------------------------------------------------------------------
(* What must hold of every step s -op/r-> t. *)

(* C07 *)
FailFrame(s, op, r, t) ==
    r.e # "ok" => \/ s = t
                  \/ op.o = "write" /\ Len(op.bs) > 2
                  \/ op.o = "rmrec"
(* C01: only the addressed cells of the addressed file change *)
WriteFrame(s, op, r, t) ==
    op.o = "write" =>
        /\ \A n \in Live(s) : Kind(s, op.fd) # "f" \/ n # s.fds[op.fd].n => s.nodes[n] = t.nodes[n]
        /\ r.e = "ok" => LET n == s.fds[op.fd].n IN
             \A i \in Cells : DataOf(t, n)[i] =
                 IF i > op.bs[1] /\ i <= op.bs[Len(op.bs)] THEN op.v ELSE DataOf(s, n)[i]
(* C10/C01: reads, seeks and queries change no object *)
ReadOnly == {"read", "seek", "tell", "flush", "advise", "close", "renum", "setstat"}
ReadFrame(s, op, r, t) == op.o \in ReadOnly => s.nodes = t.nodes
(* C08: other descriptors are untouched by everything but an upgrade *)
FdFrame(s, op, r, t) ==
    op.o # "upgrade" => \A f \in 1..MaxFds :
        \/ s.fds[f] = t.fds[f]
        \/ s.fds[f].k = "x" /\ r.e = "ok"
        \/ op.o \in {"close", "renum", "setstat", "read", "write", "seek"}
           /\ (f = op.fd \/ (op.o = "renum" /\ f = op.to))
(* C05/C09/C19: objects die only by removal or replacement, and only when unprotected *)
DeathFrame(s, op, r, t) ==
    \A n \in Live(s) : t.nodes[n].ty = "x" =>
        /\ op.o \in {"unlink", "rmdir", "rmrec", "link", "rename"}
        /\ ~OpenOn(s, n) /\ ~Mounted(s, n)
(* C06: rename keeps the set of objects, except a replaced one, and their contents *)
RenameFrame(s, op, r, t) ==
    op.o = "rename" /\ r.e = "ok" =>
        LET n == t.fds[r.v[1]].n IN
        /\ s.nodes[n] = t.nodes[n]
        /\ Cardinality({m \in Live(s) : t.nodes[m].ty = "x"}) <= 1
        /\ \A m \in Live(s) \cap Live(t) : s.nodes[m].dat = t.nodes[m].dat /\ s.nodes[m].sz = t.nodes[m].sz
(* C03 *)
UpgradeFrame(s, op, r, t) ==
    op.o = "upgrade" => \A n \in 1..MaxNodes : t.nodes[n] = [s.nodes[n] EXCEPT !.mem = 0]
(* C18: other times only by settime and setall (or with the mount's attributes);
   creation times and types never change, identities are never taken over *)
TimeFrame(s, op, r, t) ==
    /\ \A n \in Live(s) \cap Live(t) : s.nodes[n].tm[1] = t.nodes[n].tm[1] /\ s.nodes[n].ty = t.nodes[n].ty
    /\ \A n \in Live(s) \cap Live(t) :
        op.o \in {"settime", "setall", "storem"} \/ s.nodes[n].tm = t.nodes[n].tm
(* C13: operations on a mounted file do not touch the host content *)
HostFrame(s, op, r, t) ==
    \A n \in Live(s) \cap Live(t) :
        (s.nodes[n].mem # 0 /\ op.o # "storem") => s.nodes[n].dat = t.nodes[n].dat /\ s.nodes[n].sz = t.nodes[n].sz

(* C15: the chunk size is fixed once something is stored, the kind of chunks of a file for its life *)
ConfFrame(s, op, r, t) ==
    /\ s.cf.cs # t.cf.cs => op.o = "setcs" /\ ~s.cf.used
    /\ s.cf.used => t.cf.used
    /\ \A n \in Live(s) \cap Live(t) : s.nodes[n].ck = t.nodes[n].ck
    /\ op.o \in {"setcs", "setct"} => s.nodes = t.nodes /\ s.fds = t.fds /\ s.mem = t.mem

StepOK(s, op, r, t) ==
    /\ ConfFrame(s, op, r, t)
    /\ FailFrame(s, op, r, t) /\ WriteFrame(s, op, r, t) /\ ReadFrame(s, op, r, t)
    /\ FdFrame(s, op, r, t) /\ DeathFrame(s, op, r, t) /\ RenameFrame(s, op, r, t)
    /\ UpgradeFrame(s, op, r, t) /\ TimeFrame(s, op, r, t) /\ HostFrame(s, op, r, t)
    /\ r.e # "!start"
=============================================================================
