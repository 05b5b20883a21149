-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: runs recorded from the real code (harness, `conform   *)
(* record`) are behaviours of FS.  A line of the trace is a call, its      *)
(* result, and what it changed in the observed state: n (objects), f       *)
(* (descriptors), m (memories).  What a line does not mention must not     *)
(* change in the specification either.  It may also have the persistent    *)
(* layout (y) after the call, which must be as Space requires, and a       *)
(* listing (l).                                                            *)
(*                                                                         *)
(* Each run begins with a "start" line.  When the specification does not   *)
(* allow a step, the step is reported (REJECT ...) and the rest of that    *)
(* run is skipped.  The trace was judged completely iff DONE is printed.   *)
(***************************************************************************)
EXTENDS Space, Json

CONSTANT TraceFile

Log == ndJsonDeserialize(TraceFile)
Len0 == Len(Log)
Starts == {k \in 1..Len0 : Log[k].op.o = "start"}
(* the next run after line k *)
NextStart(k) == LET S == {j \in Starts : j > k} IN IF S = {} THEN Len0 + 1 ELSE Least(S)

VARIABLES i,    \* next line
          s,    \* state of the specification
          up,   \* an upgrade happened in this run
          act,  \* the last call and its result
          lay   \* the layout last seen, and the most space in use so far
tvars == <<i, s, up, act, lay>>

-----------------------------------------------------------------------------
(* What can be observed of a state. *)

VisNode(t, n) ==
    LET d == t.nodes[n] IN
    IF d.ty = "x" THEN [i |-> n, ty |-> "x"]
    ELSE [i |-> n, ty |-> d.ty, lc |-> d.lc, sz |-> SizeOf(t, n), lim |-> LimOf(t, n),
          dat |-> IF d.ty = "d" THEN <<>>
                  ELSE LET z == SizeOf(t, n) D == DataOf(t, n) IN [c \in Cells |-> IF c <= z THEN D[c] ELSE 0],
          ents |-> d.ents, tm |-> TmOf(t, n), mt |-> IF d.mem # 0 THEN 1 ELSE 0]
VisFd(t, f) == [i |-> f, k |-> t.fds[f].k, n |-> t.fds[f].n, cur |-> t.fds[f].cur, st |-> t.fds[f].st]
VisMem(t, m) == [i |-> m, c |-> t.mem[m].c, pg |-> t.mem[m].pg]

(* the mention of j in a list of changes, or else what it was before; a big
   directory has the names that are gone (er) and the entries that came (ea) *)
Whole(g, before) ==
    IF "er" \notin DOMAIN g THEN g
    ELSE [k \in (DOMAIN g \ {"er", "ea"}) \cup {"ents"} |->
             IF k = "ents" THEN LET gone == Range(g.er)
                                    Stays(e) == e[1] \notin gone IN SelectSeq(before.ents, Stays) \o g.ea
             ELSE g[k]]
Obs(list, j, before) ==
    LET S == {k \in 1..Len(list) : list[k].i = j} IN IF S = {} THEN before ELSE Whole(list[Least(S)], before)

(* A listing of directory d: all entries with their indices, those from an
   index on (-3: none given, -1 and -2: the index of "." and ".."), and what is
   at the index at.  Entries that stay keep their place (mv: those that did
   not), and new objects have new identities (ni: those that do not). *)
ListLabel(l, t) ==
    LET y == l.l
        ents == t.nodes[y.d].ents
        dot == <<-1, ".", y.d>>
        up2 == <<-2, "..", 0>>
        Behind(e) == e[1] >= y.from
        want == CASE y.from \in {-3, -1} -> <<dot, up2>> \o y.all
                  [] y.from = -2 -> <<up2>> \o y.all
                  [] OTHER -> SelectSeq(y.all, Behind)
        here == {k \in 1..Len(y.all) : y.all[k][1] = y.at}
    IN IF Len(y.all) # Len(ents) \/ \E k \in 1..Len(ents) : <<y.all[k][2], y.all[k][3]>> # ents[k] THEN "listing:"
       ELSE IF \E k \in 1..Len(ents) : y.all[k][1] <= (IF k = 1 THEN 0 ELSE y.all[k - 1][1]) THEN "order:"
       ELSE IF y.got # want THEN "listing:"
       ELSE IF y.one # (IF here = {} THEN <<>> ELSE <<y.all[Least(here)][2], y.all[Least(here)][3]>>) THEN "listing:"
       ELSE ""
Places(l, t) ==
    LET o == l.op.o IN
    IF "mv" \in DOMAIN l /\ ~(o = "rename" /\ \A k \in 1..Len(l.mv) : l.mv[k][2] \in Range(l.op.p2)) THEN "order:" \o o
    ELSE IF "ni" \in DOMAIN l THEN "nodeid:" \o o
    ELSE IF "l" \in DOMAIN l /\ ListLabel(l, t) # "" THEN ListLabel(l, t) \o o
    ELSE ""

Labels(l, x) ==
    LET o == l.op.o
        res == IF l.r.e # x.r.e
               THEN <<IF l.r.e = "ok" THEN "accept:" ELSE IF x.r.e = "ok" THEN "reject:" ELSE "error:">>
               ELSE IF l.r # x.r THEN <<"value:">> ELSE <<>>
        node(n) ==
            LET a == VisNode(s, n)
                e == VisNode(x.s, n)
                g == Obs(l.n, n, a) IN
            IF g = e THEN <<>>
            ELSE IF g.ty = "x" \/ e.ty = "x" \/ g.ty # e.ty THEN <<"tree:">>
            ELSE IF {<<g.ents[j][1], g.ents[j][2]>> : j \in 1..Len(g.ents)} # {<<e.ents[j][1], e.ents[j][2]>> : j \in 1..Len(e.ents)} THEN <<"tree:">>
            ELSE IF g.ents # e.ents THEN <<"order:">>
            ELSE IF g.mt # e.mt THEN <<"mount:">>
            ELSE IF g.lc # e.lc THEN <<"lc:">>
            ELSE IF g.sz # e.sz THEN <<IF e.ty = "d" THEN "dirsize:" ELSE "size:">>
            ELSE IF g.lim # e.lim THEN <<"limit:">>
            ELSE IF g.tm # e.tm THEN <<"times:">>
            ELSE <<"content:">>
        fd(f) ==
            LET e == VisFd(x.s, f)
                g == Obs(l.f, f, VisFd(s, f)) IN
            IF g = e THEN <<>>
            ELSE IF g.k # e.k \/ g.n # e.n THEN <<"fdstate:">>
            ELSE IF g.st # e.st THEN <<"fdstat:">> ELSE <<"cursor:">>
        mm(m) ==
            LET e == VisMem(x.s, m)
                g == Obs(l.m, m, VisMem(s, m)) IN
            IF g = e THEN <<>> ELSE IF g.pg # e.pg THEN <<"mempages:">> ELSE <<"mem:">>
        first(K, F(_)) == LET S == {j \in K : F(j) # <<>>} IN
                          IF S = {} THEN <<>> ELSE <<F(Least(S))[1] \o o \o " (" \o ToString(Least(S)) \o ")">>
        (* what neither side changed needs no comparison *)
        ns == {l.n[k].i : k \in 1..Len(l.n)} \cup
              {n \in 1..MaxNodes : s.nodes[n] # x.s.nodes[n] \/ (s.nodes[n].mem # 0 /\ s.mem # x.s.mem)}
        fs == {l.f[k].i : k \in 1..Len(l.f)} \cup {f \in 1..MaxFds : s.fds[f] # x.s.fds[f]}
    IN IF res # <<>> THEN <<res[1] \o o>>
       ELSE IF x.s = s /\ l.n = <<>> /\ l.f = <<>> /\ l.m = <<>> THEN <<>>
       ELSE LET a == first(fs, fd) b == first(ns, node) c == first(1..NMem, mm) IN
            IF b # <<>> THEN b ELSE IF a # <<>> THEN a ELSE c

(* a mention of something that the specification does not know *)
Foreign(l) == \/ \E k \in 1..Len(l.n) : l.n[k].i \notin 1..MaxNodes
              \/ \E k \in 1..Len(l.f) : l.f[k].i \notin 1..MaxFds

Reject(k, l, what, exp) ==
    PrintT("REJECT " \o ToJson([line |-> k, class |-> what, failed |-> IF l.r.e # "ok" THEN 1 ELSE 0, up |-> up, exp |-> exp]))
Skip(k) == i' = NextStart(k) /\ UNCHANGED <<s, up, act, lay>>

(* the layout, where the line has one, carries the state t *)
Peak(l) == PeakAfter(lay.peak, lay.y, l.y)
SpaceLabel(l, t) ==
    IF "y" \notin DOMAIN l THEN ""
    ELSE LET a == LayoutLabel(t, l.y) IN
         IF a # "" THEN a
         ELSE IF lay.peak >= 0 /\ Grown(Peak(l), l.y) THEN "space:growth" ELSE ""
(* (an image of an earlier version begins with what that took; when only some
   layouts were written down, growth cannot be judged) *)
NextLay(l) == IF "y" \notin DOMAIN l \/ lay.peak = -2 THEN lay
              ELSE [y |-> l.y, peak |-> IF lay.peak >= 0 THEN Peak(l) ELSE l.y.next]

Start == /\ i <= Len0 /\ Log[i].op.o = "start"
         /\ i' = i + 1 /\ up' = 0
         (* a run may begin with what an earlier version left *)
         /\ s' = IF "s" \in DOMAIN Log[i] THEN Log[i].s ELSE InitState
         /\ act' = [op |-> [o |-> "start"], r |-> Ok(<<>>)]
         /\ lay' = [y |-> NoLayout, peak |-> IF "sampled" \in DOMAIN Log[i] THEN -2 ELSE IF "s" \in DOMAIN Log[i] THEN -1 ELSE 0]
Call == /\ i <= Len0 /\ Log[i].op.o \notin {"start", "panic"}
        /\ LET l == Log[i] IN
           IF Foreign(l) THEN Reject(i, l, "tree:" \o l.op.o, "more objects or descriptors") /\ Skip(i)
           ELSE LET x == Do(s, l.op)
                    b == Labels(l, x) IN
                IF b # <<>> THEN Reject(i, l, b[1], ToString(x.r)) /\ Skip(i)
                ELSE IF Places(l, x.s) # "" THEN Reject(i, l, Places(l, x.s), "entries and identities that stay") /\ Skip(i)
                ELSE IF SpaceLabel(l, x.s) # "" THEN Reject(i, l, SpaceLabel(l, x.s), "a layout as in Space.tla") /\ Skip(i)
                ELSE /\ s' = x.s /\ i' = i + 1 /\ lay' = NextLay(l)
                     /\ up' = IF l.op.o = "upgrade" THEN 1 ELSE up
                     /\ act' = [op |-> l.op, r |-> x.r]
Panicked == /\ i <= Len0 /\ Log[i].op.o = "panic"
            /\ Reject(i, Log[i], Log[i].op.at, Log[i].r.e) /\ Skip(i)
Finish == i = Len0 + 1 /\ i' = i + 1 /\ UNCHANGED <<s, up, act, lay>> /\ PrintT("DONE " \o ToString(Len0))

TInit == i = 1 /\ s = InitState /\ up = 0 /\ act = [op |-> [o |-> "start"], r |-> Ok(<<>>)] /\ lay = [y |-> NoLayout, peak |-> 0]
TNext == Start \/ Call \/ Panicked \/ Finish
TSpec == TInit /\ [][TNext]_tvars

(* the runs also satisfy what must hold of every state and every step *)
TraceStateOK == StateOK(s)
TraceStepOK == [][s' # s /\ act'.op.o # "start" => StepOK(s, act'.op, act'.r, s')]_tvars
=============================================================================
