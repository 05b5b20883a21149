-------------------------------- MODULE FSGen --------------------------------
(***************************************************************************)
(* Behaviours of FS.  Two uses of the same actions:                        *)
(*  - MODE = "all":  TLC enumerates every call with every argument of the  *)
(*    profile in every reachable state up to MaxLen calls; every transition *)
(*    is printed with a history that leads to it (h) and its target state. *)
(*  - MODE = "sim":  each step draws one call with random arguments; the   *)
(*    simulated behaviours are printed step by step.                       *)
(* The invariants and step properties of FS are checked in both modes.     *)
(***************************************************************************)
EXTENDS FS, Json

CONSTANTS
    MODE, MaxLen,
    OPS,       \* calls enumerated in mode "all"
    BAG,       \* sequence of calls drawn from in mode "sim" (weights by repetition)
    PATHS,     \* paths used in mode "all"
    FLS, STS,  \* open flags and stats
    TAGS,      \* write tags of mode "all"
    TIMES, POLS,
    WIDE,      \* cells that cannot be transferred
    SEEKMAX,   \* greatest grid index that can be sought
    BUFS,      \* buffers per vectored call
    CLS,       \* classes of numbers to renumber to
    DEPTH,     \* longest random path
    ODD        \* percentage of odd choices (closed descriptors, odd paths)

VARIABLES s, h
vars == <<s, h>>
view == s

Emit(op, r) ==
    h' = IF MODE = "all" THEN Append(h, [op |-> op, r |-> r]) ELSE <<[op |-> op, r |-> r]>>

Step(op) == LET x == Do(s, op) IN s' = x.s /\ Emit(op, x.r)

Init == s = InitState /\ h = <<>>

-----------------------------------------------------------------------------
(* Mode "all": argument sets *)

Slots == 1..MaxFds
OpenSlots == {f \in Slots : s.fds[f].k # "x"}
FileSlots == {f \in Slots : s.fds[f].k = "f"}
(* one representative of the closed slots is enough *)
AnySlots == OpenSlots \cup (IF FreeSlots(s) = {} THEN {} ELSE {Least(FreeSlots(s))})
Room == FreeSlots(s) # {} /\ Cardinality(FreeNodes(s)) >= 3
Ends(b) == {j \in b..(NG-1) : \A c \in Cells : c > b /\ c <= j => c \notin WIDE}

RECURSIVE BufSeqs(_, _)
BufSeqs(b, k) == IF k = 0 THEN {<<b>>}
                 ELSE {<<b>>} \cup UNION {{<<b>> \o q : q \in BufSeqs(e, k - 1)} : e \in Ends(b)}
Bufs(b) == {q \in BufSeqs(b, BUFS) : Len(q) >= 2}

On(o) == o \in OPS /\ MODE = "all" /\ Len(h) < MaxLen

Open    == On("open") /\ Room /\ \E fd \in AnySlots, p \in PATHS, fl \in FLS, st \in STS, t \in TIMES :
              Step([o |-> "open", fd |-> fd, p |-> p, fl |-> fl, st |-> st, t |-> t])
Mkdir   == On("mkdir") /\ Room /\ \E fd \in AnySlots, p \in PATHS, t \in TIMES :
              Step([o |-> "mkdir", fd |-> fd, p |-> p, t |-> t])
MkdirOpen == On("mkdiro") /\ Room /\ \E fd \in AnySlots, p \in PATHS, t \in TIMES :
              Step([o |-> "mkdiro", fd |-> fd, p |-> p, t |-> t, st |-> 3])
Close   == On("close") /\ \E fd \in AnySlots : Step([o |-> "close", fd |-> fd])
Renumber == On("renum") /\ \E fd \in AnySlots, to \in AnySlots, c \in CLS :
              Step([o |-> "renum", fd |-> fd, to |-> to, cls |-> c])
WriteCur == On("write") /\ \E fd \in FileSlots, v \in TAGS :
              \E bs \in Bufs(WriteStart(s, [fd |-> fd, m |-> "cur", bs |-> <<0>>])) :
                Step([o |-> "write", fd |-> fd, m |-> "cur", bs |-> bs, v |-> v])
WriteOff == On("writeoff") /\ \E fd \in FileSlots, v \in TAGS, b \in 0..(NG-1) :
              \E bs \in Bufs(WriteStart(s, [fd |-> fd, m |-> "off", bs |-> <<b>>])) :
                Step([o |-> "write", fd |-> fd, m |-> "off", bs |-> bs, v |-> v])
ReadCur == On("read") /\ \E fd \in FileSlots : \E bs \in Bufs(s.fds[fd].cur) :
              Step([o |-> "read", fd |-> fd, m |-> "cur", bs |-> bs])
ReadOff == On("readoff") /\ \E fd \in FileSlots, b \in 0..(NG-1) : \E bs \in Bufs(b) :
              Step([o |-> "read", fd |-> fd, m |-> "off", bs |-> bs])
WrongKind == On("wrongkind") /\ \E fd \in AnySlots \ FileSlots :
              \/ Step([o |-> "read", fd |-> fd, m |-> "off", bs |-> <<0, 1>>])
              \/ Step([o |-> "write", fd |-> fd, m |-> "off", bs |-> <<0, 1>>, v |-> 1])
              \/ Step([o |-> "seek", fd |-> fd, w |-> "set", to |-> 0, bad |-> 0])
              \/ Step([o |-> "setsize", fd |-> fd, to |-> 1])
Seek    == On("seek") /\ \E fd \in FileSlots, w \in {"set", "cur", "end"}, to \in 0..SEEKMAX, b \in {0, 1} :
              (b = 1 => to = 0) /\ Step([o |-> "seek", fd |-> fd, w |-> w, to |-> to, bad |-> b])
Tell    == On("tell") /\ \E fd \in AnySlots : Step([o |-> "tell", fd |-> fd])
SetSizeA == On("setsize") /\ \E fd \in FileSlots, to \in 0..(NG-1) : Step([o |-> "setsize", fd |-> fd, to |-> to])
SetMeta == On("setmeta") /\ \E fd \in FileSlots, to \in 0..(NG-1) : Step([o |-> "setmeta", fd |-> fd, to |-> to])
SetAllA == On("setall") /\ \E fd \in AnySlots, to \in 0..(NG-1), lim \in -1..(NG-1), t \in TIMES, k \in {"ok", "node", "type"} :
              (k = "ok" \/ (to = 0 /\ lim = -1)) /\ Step([o |-> "setall", fd |-> fd, to |-> to, lim |-> lim, t |-> t, k |-> k])
SetLimit == On("setlim") /\ \E fd \in FileSlots, to \in 0..(NG-1) : Step([o |-> "setlim", fd |-> fd, to |-> to])
SetTime == On("settime") /\ \E fd \in AnySlots, w \in {2, 3}, t \in TIMES :
              Step([o |-> "settime", fd |-> fd, w |-> w, t |-> t])
SetStat == On("setstat") /\ \E fd \in AnySlots, st \in STS : Step([o |-> "setstat", fd |-> fd, st |-> st])
Unlink  == On("unlink") /\ \E fd \in AnySlots, p \in PATHS : Step([o |-> "unlink", fd |-> fd, p |-> p])
Rmdir   == On("rmdir") /\ \E fd \in AnySlots, p \in PATHS : Step([o |-> "rmdir", fd |-> fd, p |-> p])
RmRec   == On("rmrec") /\ \E fd \in AnySlots, p \in PATHS : Step([o |-> "rmrec", fd |-> fd, p |-> p])
Link    == On("link") /\ Room /\ \E fd, fd2 \in AnySlots, p, p2 \in PATHS :
              Step([o |-> "link", fd |-> fd, p |-> p, fd2 |-> fd2, p2 |-> p2])
Rename  == On("rename") /\ Room /\ \E fd, fd2 \in AnySlots, p, p2 \in PATHS :
              Step([o |-> "rename", fd |-> fd, p |-> p, fd2 |-> fd2, p2 |-> p2])
FreeMem == {m \in 1..NMem : \A n \in 1..MaxNodes : s.nodes[n].mem # m}
Mount   == On("mount") /\ Room /\ \E m \in FreeMem, p \in PATHS, pol \in POLS, to \in 0..(NG-1) :
              (pol = "explicit" \/ to = 0) /\ Step([o |-> "mount", p |-> p, m |-> m, pol |-> pol, to |-> to])
Unmount == On("unmount") /\ Room /\ \E p \in PATHS : Step([o |-> "unmount", p |-> p])
InitMem == On("initm") /\ Room /\ \E p \in PATHS : Step([o |-> "initm", p |-> p])
StoreMem == On("storem") /\ Room /\ \E p \in PATHS : Step([o |-> "storem", p |-> p])
Upgrade == On("upgrade") /\ Step([o |-> "upgrade"])
SetCs   == On("setcs") /\ \E k \in 0..4 : Step([o |-> "setcs", to |-> k])
SetCt   == On("setct") /\ \E k \in {1, 2} : Step([o |-> "setct", to |-> k])

-----------------------------------------------------------------------------
(* Mode "sim": random arguments, biased towards what exists *)

Pct(n) == RandomElement(1..100) <= n
Pick(S, alt) == IF S = {} THEN alt ELSE RandomElement(S)

RSlot == IF Pct(ODD) THEN RandomElement(Slots) ELSE RandomElement(OpenSlots)
RFile == IF Pct(ODD) THEN RandomElement(Slots) ELSE Pick(FileSlots, 1)
RDir  == IF Pct(ODD) THEN RandomElement(Slots)
         ELSE IF Pct(60) THEN 1 ELSE RandomElement({f \in Slots : s.fds[f].k = "d"})

DirNode(fd) == IF s.fds[fd].k = "d" THEN s.fds[fd].n ELSE Root

RName(z) == RandomElement(Names)
RECURSIVE RComps(_)
RComps(k) == IF k = 0 THEN <<>> ELSE <<RName(0)>> \o RComps(k - 1)
(* a path to an existing object below d *)
RECURSIVE RDown(_, _)
RDown(d, k) ==
    LET es == s.nodes[d].ents IN
    IF k = 0 \/ es = <<>> THEN <<>>
    ELSE LET e == RandomElement({es[i] : i \in 1..Len(es)}) IN
         <<e[1]>> \o (IF s.nodes[e[2]].ty = "d" THEN RDown(e[2], k - 1) ELSE <<>>)
(* insert an odd component somewhere *)
Oddly(p) ==
    LET i == RandomElement(0..Len(p))
        x == RandomElement({"DOT", "EMPTY", "UPDOWN", "UP", "LONG"})
        mid == CASE x = "DOT" -> <<".">> [] x = "EMPTY" -> <<"">> [] x = "UP" -> <<"..">>
                 [] x = "UPDOWN" -> <<RName(0), "..">> [] OTHER -> <<LongName>>
    IN SubSeq(p, 1, i) \o mid \o SubSeq(p, i + 1, Len(p))
RPath(d) ==
    LET k == RandomElement(1..DEPTH)
        base == IF Pct(55) THEN RDown(d, k)
                ELSE IF Pct(50) THEN RDown(d, k) \o <<RName(0)>> ELSE RComps(k)
        p == IF Len(base) > DEPTH THEN SubSeq(base, 1, DEPTH) ELSE base
    IN IF Pct(ODD) THEN Oddly(p) ELSE IF p = <<>> THEN <<RName(0)>> ELSE p
(* a path to something new *)
RNew(d) ==
    LET b == RDown(d, RandomElement(0..(DEPTH - 1)))
    IN IF Pct(ODD) THEN Oddly(b \o <<RName(0)>>) ELSE b \o <<RName(0)>>

RECURSIVE RBufs(_, _)
RBufs(b, k) == IF k = 0 THEN <<b>>
               ELSE LET E == Ends(b)
                        F == E \ {b}
                        e == IF F = {} \/ Pct(8) THEN b ELSE IF Pct(45) THEN Least(F) ELSE RandomElement(F)
                    IN <<b>> \o RBufs(e, k - 1)
RB(b) == RBufs(b, IF BUFS = 1 \/ Pct(75) THEN 1 ELSE RandomElement(1..BUFS))
(* mostly full rights; mostly plain creation *)
RSt(z) == IF 3 \in STS /\ Pct(50) THEN 3 ELSE RandomElement(STS)
RFl(z) == IF CREATE \in FLS /\ Pct(25) THEN CREATE
          ELSE IF Pct(60) THEN Pick(FLS \cap {0, CREATE, DIRECTORY, TRUNCATE, CREATE + TRUNCATE}, 0)
          ELSE RandomElement(FLS)
RTag(z) == IF Pct(10) THEN 0 ELSE RandomElement(1..200)   \* (0: zeros)
RTime(z) == RandomElement(TIMES)
RIdx(z) == RandomElement(0..(NG-1))
CurOf(fd) == IF s.fds[fd].k = "f" THEN s.fds[fd].cur ELSE 0
StartOf(fd, m, b) == IF s.fds[fd].k = "f" THEN WriteStart(s, [fd |-> fd, m |-> m, bs |-> <<b>>]) ELSE b
RSeek(fd, w) ==
    LET z == IF s.fds[fd].k = "f" THEN SizeOf(s, s.fds[fd].n) ELSE 0 IN
    IF w = "end" /\ ~Pct(ODD) THEN RandomElement(0..Min(z, SEEKMAX)) ELSE RandomElement(0..SEEKMAX)
(* mounting works with paths below the root *)
RHost == IF Pct(80) THEN RDown(Root, DEPTH) ELSE RPath(Root)
RMounted == LET S == {n \in 1..MaxNodes : s.nodes[n].mem # 0} IN
    IF S = {} \/ Pct(20) THEN RHost
    ELSE LET T == {e \in UNION {{<<<<s.nodes[Root].ents[i][1]>>, s.nodes[Root].ents[i][2]>> : i \in 1..Len(s.nodes[Root].ents)}} : e[2] \in S}
         IN IF T = {} THEN RHost ELSE RandomElement(T)[1]

BulkKinds == {"links", "opens", "deep", "wide", "churn", "moves", "appends", "renums", "sizes", "mounts"}
RandomOp(kind) ==
    CASE kind = "open" ->
           LET fd == RDir IN
           [o |-> "open", fd |-> fd, p |-> RPath(DirNode(fd)), fl |-> RFl(0),
            st |-> RSt(0), t |-> RTime(0)]
      [] kind = "create" ->
           LET fd == RDir IN
           [o |-> "open", fd |-> fd, p |-> RNew(DirNode(fd)), fl |-> CREATE, st |-> RSt(0), t |-> RTime(0)]
      [] kind = "openx" ->   \* an existing object
           LET fd == RDir IN
           [o |-> "open", fd |-> fd, p |-> RDown(DirNode(fd), DEPTH), fl |-> RFl(0),
            st |-> RSt(0), t |-> RTime(0)]
      [] kind = "mkdir" -> LET fd == RDir IN [o |-> "mkdir", fd |-> fd, p |-> RNew(DirNode(fd)), t |-> RTime(0)]
      [] kind = "mkdiro" -> LET fd == RDir IN [o |-> "mkdiro", fd |-> fd, p |-> RNew(DirNode(fd)), t |-> RTime(0), st |-> RSt(0)]
      [] kind = "close" -> [o |-> "close", fd |-> IF OpenSlots = {1} \/ Pct(5) THEN RSlot ELSE RandomElement(OpenSlots \ {1})]
      [] kind = "renum" -> [o |-> "renum", fd |-> RSlot, to |-> IF Pct(50) THEN RandomElement(Slots) ELSE RSlot, cls |-> RandomElement(CLS)]
      [] kind = "write" -> LET fd == RFile IN
           [o |-> "write", fd |-> fd, m |-> "cur", bs |-> RB(StartOf(fd, "cur", 0)), v |-> RTag(0)]
      [] kind = "writeoff" -> LET fd == RFile b == RIdx(0) IN
           [o |-> "write", fd |-> fd, m |-> "off", bs |-> RB(StartOf(fd, "off", b)), v |-> RTag(0)]
      [] kind = "read" -> LET fd == RFile IN [o |-> "read", fd |-> fd, m |-> "cur", bs |-> RB(CurOf(fd))]
      [] kind = "readoff" -> LET fd == RFile IN [o |-> "read", fd |-> fd, m |-> "off", bs |-> RB(RIdx(0))]
      [] kind = "seek" -> LET fd == RFile w == RandomElement({"set", "cur", "end"}) IN
           [o |-> "seek", fd |-> fd, w |-> w, to |-> RSeek(fd, w), bad |-> IF Pct(ODD) THEN 1 ELSE 0]
      [] kind = "tell" -> [o |-> "tell", fd |-> RFile]
      [] kind = "flush" -> [o |-> "flush", fd |-> RFile]
      [] kind = "advise" -> [o |-> "advise", fd |-> RFile]
      [] kind = "setsize" -> [o |-> "setsize", fd |-> RFile, to |-> RIdx(0)]
      [] kind = "setmeta" -> [o |-> "setmeta", fd |-> RFile, to |-> RIdx(0)]
      [] kind = "setall" -> [o |-> "setall", fd |-> RSlot, to |-> RIdx(0), lim |-> IF Pct(50) THEN -1 ELSE RIdx(0), t |-> RTime(0),
                              k |-> IF Pct(80) THEN "ok" ELSE RandomElement({"node", "type"})]
      [] kind = "setlim" -> [o |-> "setlim", fd |-> RFile, to |-> RIdx(0)]
      [] kind = "settime" -> [o |-> "settime", fd |-> RSlot, w |-> RandomElement({2, 3}), t |-> RTime(0)]
      [] kind = "setstat" -> [o |-> "setstat", fd |-> RSlot, st |-> RandomElement(STS)]
      [] kind = "unlink" -> LET fd == RDir IN [o |-> "unlink", fd |-> fd, p |-> RPath(DirNode(fd))]
      [] kind = "rmdir" -> LET fd == RDir IN [o |-> "rmdir", fd |-> fd, p |-> RPath(DirNode(fd))]
      [] kind = "rmrec" -> LET fd == RDir IN [o |-> "rmrec", fd |-> fd, p |-> RPath(DirNode(fd))]
      [] kind \in {"link", "rename"} -> LET fd == RDir fd2 == RDir IN
           [o |-> kind, fd |-> fd, p |-> RPath(DirNode(fd)), fd2 |-> fd2,
            p2 |-> IF Pct(50) THEN RNew(DirNode(fd2)) ELSE RPath(DirNode(fd2))]
      [] kind = "mount" -> LET pol == RandomElement(POLS) IN
           [o |-> "mount", p |-> RHost, m |-> Pick(FreeMem, 1), pol |-> pol,
            to |-> IF pol = "explicit" THEN RIdx(0) ELSE 0]
      [] kind = "unmount" -> [o |-> "unmount", p |-> RMounted]
      [] kind = "initm" -> [o |-> "initm", p |-> RMounted]
      [] kind = "storem" -> [o |-> "storem", p |-> RMounted]
      [] kind = "upgrade" -> [o |-> "upgrade"]
      [] kind = "setcs" -> [o |-> "setcs", to |-> RandomElement(0..4)]
      [] kind = "setct" -> [o |-> "setct", to |-> RandomElement({1, 2})]
      [] kind \in BulkKinds -> [o |-> "bulk", k |-> kind, fd |-> RandomElement({f \in Slots : s.fds[f].k = "d"})]

NeedsSlot == {"open", "create", "openx", "mkdiro", "link", "rename", "mount", "unmount", "initm", "storem"}
NeedsFile == {"write", "writeoff", "read", "readoff", "seek", "tell", "setsize", "setmeta", "setlim"}
NeedsNode == {"open", "create", "mkdir", "mkdiro", "link", "rename", "mount"}
Kind1 == LET k == BAG[RandomElement(1..Len(BAG))] IN
    IF k \in NeedsFile /\ FileSlots = {} /\ Pct(85) /\ FreeSlots(s) # {} THEN
        IF Cardinality(FreeNodes(s)) < DEPTH + 1 THEN "drop" ELSE "create"
    ELSE IF k \in NeedsSlot /\ Cardinality(FreeSlots(s)) < 1 THEN "close"
    ELSE IF k \in NeedsNode /\ Cardinality(FreeNodes(s)) < DEPTH + 1 THEN "drop"
    ELSE IF k = "mount" /\ FreeMem = {} THEN "unmount" ELSE k
RealOp(k) == IF k = "drop" THEN (IF Pct(50) THEN [o |-> "close", fd |-> RandomElement(Slots)]
                                 ELSE [o |-> "rmrec", fd |-> 1, p |-> RDown(Root, 1)])
             ELSE RandomOp(k)
Simulate == MODE = "sim" /\ \E k \in {Kind1} : \E op \in {RealOp(k)} : Step(op)

Next == \/ Open \/ Mkdir \/ MkdirOpen \/ Close \/ Renumber \/ WriteCur \/ WriteOff
        \/ ReadCur \/ ReadOff \/ WrongKind \/ Seek \/ Tell \/ SetSizeA \/ SetMeta \/ SetAllA
        \/ SetLimit \/ SetTime \/ SetStat \/ Unlink \/ Rmdir \/ RmRec \/ Link \/ Rename
        \/ Mount \/ Unmount \/ InitMem \/ StoreMem \/ Upgrade \/ SetCs \/ SetCt \/ Simulate

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
SpecStateOK == StateOK(s)
LastOK == LET e == h'[Len(h')] IN StepOK(s, e.op, e.r, s')
SpecStepOK == [][LastOK]_vars

(* printing: only the live part of the state *)
Compact(t) == [n |-> SelectSeq([i \in 1..MaxNodes |-> <<i, t.nodes[i]>>], LAMBDA x : x[2].ty # "x"),
               f |-> SelectSeq([i \in 1..MaxFds |-> <<i, t.fds[i]>>], LAMBDA x : x[2].k # "x"),
               m |-> t.mem, cf |-> t.cf]
EmitAll == PrintT(ToJson([h |-> h', s |-> Compact(s')]))
(* without the VIEW: every history of the full length *)
EmitFull == Len(h') < MaxLen \/ PrintT(ToJson([h |-> h', s |-> Compact(s')]))
EmitSim == PrintT(ToJson([l |-> TLCGet("level"), h |-> h', s |-> Compact(s')]))
=============================================================================
