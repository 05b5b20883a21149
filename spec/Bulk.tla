--------------------------------- MODULE Bulk ---------------------------------
(***************************************************************************)
(* Episodes: long runs of calls after which the state is what it was.       *)
(* Each law says what n repetitions do, from every reachable state and for  *)
(* every open directory; TLC checks the laws for n up to BULKN on the       *)
(* states of FSGen, the harness (bulk.rs) performs the same episodes on the *)
(* code with n up to 70000, in the middle of simulated behaviours (call     *)
(* "bulk", which FS.tla says changes nothing).                              *)
(***************************************************************************)
EXTENDS FSGen

CONSTANT BULKN

Z == <<"~z">>
Y == <<"~y">>
Nth(i) == IF i = 1 THEN "~1" ELSE IF i = 2 THEN "~2" ELSE "~3"

(* runs of calls; ok: the expected outcome of every call *)
RECURSIVE Run(_, _)
Run(t, calls) ==
    IF calls = <<>> THEN [s |-> t, ok |-> TRUE]
    ELSE LET x == Do(t, Head(calls)[1]) IN
         IF x.r.e # Head(calls)[2] THEN [s |-> t, ok |-> FALSE] ELSE Run(x.s, Tail(calls))
RECURSIVE Rep(_, _)   \* the calls f(1), ..., f(n)
Rep(f, n) == IF n = 0 THEN <<>> ELSE Rep(f, n - 1) \o f[n]
Ok2(op) == <<<<op, "ok">>>>
Err(op, e) == <<<<op, e>>>>

Opn(fd, p, fl) == [o |-> "open", fd |-> fd, p |-> p, fl |-> fl, st |-> 3, t |-> 1]
Cls(fd) == [o |-> "close", fd |-> fd]
Unl(fd, p) == [o |-> "unlink", fd |-> fd, p |-> p]
Lnk(fd, p, q) == [o |-> "link", fd |-> fd, p |-> p, fd2 |-> fd, p2 |-> q]
Ren(fd, p, q) == [o |-> "rename", fd |-> fd, p |-> p, fd2 |-> fd, p2 |-> q]
Mkd(fd, p) == [o |-> "mkdir", fd |-> fd, p |-> p, t |-> 1]
RmD(fd, p) == [o |-> "rmdir", fd |-> fd, p |-> p]
RmR(fd, p) == [o |-> "rmrec", fd |-> fd, p |-> p]

(* the descriptors the calls get: the k-th least free one *)
RECURSIVE Kth(_, _)
Kth(S, k) == LET m == Least(S) IN IF k = 1 THEN m ELSE Kth(S \ {m}, k - 1)
Slot(k) == Kth(FreeSlots(s), k)

Same(x) == x.ok /\ [x.s EXCEPT !.cf.used = s.cf.used] = s
NodeAt(t, d, p) == Find(t, t.fds[d].n, p).n
NodeAt2(t, p) == Find(t, Root, p).n

(* n links more: n + 1 of them, on the same file; gone with the last one *)
LawLinks(d, n) ==
    LET a == Slot(1)
        x == Run(s, Ok2(Opn(d, Z, CREATE)) \o Ok2(Cls(a)) \o Rep([i \in 1..n |-> Ok2(Lnk(d, Z, <<Nth(i)>>)) \o Ok2(Cls(a))], n))
        y == Run(x.s, Ok2(Unl(d, Z)) \o Rep([i \in 1..n |-> Ok2(Unl(d, <<Nth(i)>>)) \o Err(Unl(d, <<Nth(i)>>), "NoSuchFileOrDirectory")], n))
    IN x.ok /\ Same(y)
       /\ x.s.nodes[NodeAt(x.s, d, Z)].lc = n + 1
       /\ \A i \in 1..n : NodeAt(x.s, d, <<Nth(i)>>) = NodeAt(x.s, d, Z)
(* n descriptors: the file stays until the last one is closed *)
LawOpens(d, n) ==
    LET x == Run(s, Ok2(Opn(d, Z, CREATE)) \o Rep([i \in 1..n |-> Ok2(Opn(d, Z, 0))], n))
        y == Run(x.s, Rep([i \in 1..(n + 1) |-> Err(Unl(d, Z), "TextFileBusy") \o Ok2(Cls(Slot(i)))], n + 1) \o Ok2(Unl(d, Z)))
    IN x.ok /\ Same(y)
(* a chain n deep *)
RECURSIVE Chain(_, _)
Chain(p, n) == IF n = 0 THEN p ELSE Chain(Append(p, "~x"), n - 1)
LawDeep(d, n) ==
    LET a == Slot(1)
        x == Run(s, Ok2(Mkd(d, Chain(Z, n))) \o Err(Ren(d, Z, Chain(Z, n + 1)), "InvalidArgument") \o Ok2(Ren(d, Z, Y)) \o Ok2(Cls(a))
                    \o Err(Mkd(d, Chain(Y, n)), "FileExists"))
        y == Run(x.s, Err(RmD(d, Y), IF n > 0 THEN "DirectoryNotEmpty" ELSE "ok") \o (IF n > 0 THEN Ok2(RmR(d, Y)) ELSE <<>>)
                    \o Err(RmR(d, Y), "NoSuchFileOrDirectory"))
    IN x.ok /\ Same(y) /\ Find(x.s, x.s.fds[d].n, Z).e = "NoSuchFileOrDirectory"
(* a directory with n entries, moved *)
LawWide(d, n) ==
    LET a == Slot(1)
        x == Run(s, Ok2(Mkd(d, Z)) \o Rep([i \in 1..n |-> Ok2(Opn(d, Z \o <<Nth(i)>>, CREATE)) \o Ok2(Cls(a))], n) \o Ok2(Ren(d, Z, Y)) \o Ok2(Cls(a)))
        es == x.s.nodes[NodeAt(x.s, d, Y)].ents
        y == Run(x.s, Rep([i \in 1..n |-> Err(RmD(d, Y), "DirectoryNotEmpty") \o Ok2(Unl(d, Y \o <<Nth(i)>>))], n) \o Ok2(RmD(d, Y)))
    IN x.ok /\ Same(y) /\ Same(Run(x.s, Ok2(RmR(d, Y)))) /\ Len(es) = n /\ \A i \in 1..n : es[i][1] = Nth(i)
(* objects that come and go *)
LawChurn(d, n) ==
    LET a == Slot(1) IN
    Same(Run(s, Rep([i \in 1..n |-> IF i % 2 = 1 THEN Ok2(Opn(d, Z, CREATE)) \o Ok2(Cls(a)) \o Ok2(Unl(d, Z)) ELSE Ok2(Mkd(d, Z)) \o Ok2(RmD(d, Z))], n)))
(* a file moved to and fro, or replaced *)
LawMoves(d, n) ==
    LET a == Slot(1)
        in == Y \o <<"~n">>
        b == Run(s, Ok2(Mkd(d, Y)) \o Ok2(Opn(d, Z, CREATE)) \o Ok2(Cls(a)))
        x == Run(b.s, Rep([i \in 1..n |-> Ok2(IF i % 2 = 1 THEN Ren(d, Z, in) ELSE Ren(d, in, Z)) \o Ok2(Cls(a))], n))
        r == Run(b.s, Rep([i \in 1..n |-> Ok2(Opn(d, in, CREATE)) \o Ok2(Cls(a)) \o Ok2(Ren(d, in, Z)) \o Ok2(Cls(a))], n))
        at == IF n % 2 = 1 THEN in ELSE Z
    IN b.ok /\ x.ok /\ r.ok
       /\ x.s.nodes[NodeAt(x.s, d, at)] = b.s.nodes[NodeAt(b.s, d, Z)]
       /\ NodeAt(x.s, d, at) = NodeAt(b.s, d, Z)
       /\ r.s.nodes[NodeAt(r.s, d, Z)].lc = 1
       /\ Same(Run(x.s, Ok2(Unl(d, at)) \o Ok2(RmD(d, Y)))) /\ Same(Run(r.s, Ok2(Unl(d, Z)) \o Ok2(RmD(d, Y))))
(* n appends, each of one cell *)
LawAppends(d, n) ==
    LET a == Slot(1)
        x == Run(s, Ok2([Opn(d, Z, CREATE) EXCEPT !.st = 7]) \o Rep([i \in 1..n |-> Ok2([o |-> "write", fd |-> a, m |-> "cur", bs |-> <<i - 1, i>>, v |-> i])], n))
        f == NodeAt(x.s, d, Z)
    IN n < NG => x.ok /\ x.s.nodes[f].sz = n /\ x.s.fds[a].cur = n /\ (\A i \in 1..n : x.s.nodes[f].dat[i] = i)
                 /\ Same(Run(x.s, Ok2(Cls(a)) \o Ok2(Unl(d, Z))))
(* a descriptor that gets n new numbers *)
LawRenums(d, n) ==
    LET x == Run(s, Ok2(Opn(d, Z, CREATE)) \o Rep([i \in 1..n |-> Ok2([o |-> "renum", fd |-> Slot(i), to |-> Slot(i + 1), cls |-> "freed"])
                                                       \o Err([o |-> "tell", fd |-> Slot(i)], "BadFileDescriptor")], n))
    IN x.ok /\ Same(Run(x.s, Err(Unl(d, Z), "TextFileBusy") \o Ok2(Cls(Slot(n + 1))) \o Ok2(Unl(d, Z))))
(* a file that grows and shrinks reads as if it had only ever grown over what was cut off *)
LawSizes(d, n) ==
    LET a == Slot(1)
        big == NG - 1
        sz(k) == Ok2([o |-> "setsize", fd |-> a, to |-> k])
        wr(i) == Ok2([o |-> "write", fd |-> a, m |-> "off", bs |-> <<big - 1, big>>, v |-> i])
        x == Run(s, Ok2(Opn(d, Z, CREATE)) \o Rep([i \in 1..n |-> wr(i) \o sz(big - 1) \o sz(big)], n))
        f == NodeAt(x.s, d, Z)
    IN x.ok /\ x.s.nodes[f].sz = big /\ x.s.nodes[f].dat = NoData
       /\ Same(Run(x.s, Ok2(Cls(a)) \o Ok2(Unl(d, Z))))

(* n memories mounted at a time: each file is its memory, the hosts are not touched, *)
(* nothing mounted can lose its name; stored, the host is what the memory was       *)
LawMounts(n) ==
    LET a == Slot(1)
        nm(i) == <<Nth(i)>>
        x == Run(s, Rep([i \in 1..n |-> Ok2([o |-> "mount", p |-> nm(i), m |-> i, pol |-> "pages", to |-> 0])
                                     \o Err([o |-> "mount", p |-> nm(i), m |-> i, pol |-> "pages", to |-> 0], "DeviceOrResourceBusy")
                                     \o Ok2(Opn(1, nm(i), 0)) \o Ok2([o |-> "write", fd |-> a, m |-> "off", bs |-> <<i - 1, i>>, v |-> i]) \o Ok2(Cls(a))], n))
        un(i) == Ok2([o |-> "unmount", p |-> nm(i)]) \o Err([o |-> "unmount", p |-> nm(i)], "NoSuchDevice") \o Ok2(Unl(1, nm(i)))
        y == Run(x.s, Rep([i \in 1..n |-> Err(Unl(1, nm(i)), "TextFileBusy") \o un(i)], n))
        z == Run(x.s, Rep([i \in 1..n |-> Ok2([o |-> "storem", p |-> nm(i)]) \o Ok2([o |-> "unmount", p |-> nm(i)])], n))
        as(t) == [t EXCEPT !.mem = s.mem, !.cf.used = s.cf.used] IN
    x.ok /\ y.ok /\ z.ok /\ as(y.s) = s
    /\ \A i \in 1..n : LET f == NodeAt2(x.s, nm(i)) mt == x.s.nodes[f] st == z.s.nodes[f] IN
          /\ mt.mem = i /\ mt.sz = 0 /\ mt.dat = NoData
          /\ y.s.mem[i] = x.s.mem[i] /\ x.s.mem[i].c = [NoData EXCEPT ![i] = i]
          /\ mt.mm[1].sz = Max(Mem0[i], i)
          /\ st.sz = mt.mm[1].sz /\ st.dat = x.s.mem[i].c /\ st.mem = 0

BulkLaws ==
    \A d \in {f \in Slots : s.fds[f].k = "d"}, n \in 1..BULKN :
        Cardinality(FreeSlots(s)) > n /\ Cardinality(FreeNodes(s)) > n + 1 =>
            /\ LawLinks(d, n) /\ LawOpens(d, n) /\ LawDeep(d, n) /\ LawWide(d, n) /\ LawChurn(d, n)
            /\ LawMoves(d, n) /\ LawAppends(d, n) /\ LawRenums(d, n) /\ LawSizes(d, n) /\ (n <= NMem => LawMounts(n))
            /\ \A k \in BulkKinds : Same([ok |-> TRUE, s |-> Do(s, [o |-> "bulk", k |-> k, fd |-> d]).s])
===============================================================================
