-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* The persistent layout that carries a state of FS: which chunk of space, *)
(* which stored attributes and which directory entries belong to what.     *)
(*                                                                         *)
(* A layout y is read from the memories of the real code:                  *)
(*   next   number of chunks handed out so far, in units of the chunk size *)
(*   own    <<object, part, chunk>>: part k >= 0 is the k-th chunk of the   *)
(*          content, -1 the attributes, -2 the attributes of the mount     *)
(*   free   chunks that can be handed out again                            *)
(*   v1     <<object, part>> stored as chunks of the first kind            *)
(*   olds   objects with attributes at the place of the first version      *)
(*   ents   <<directory, number, name, object>>                            *)
(*   names  <<directory, name, number>>: the index of the names            *)
(*   ch     ch[i+1] chunks are needed for i cells; ch1: of the first kind   *)
(*   csk    chunk size in KiB; pg: memory pages taken for the chunks       *)
(*   old    1: some entries are of a version without an index of names     *)
(* Objects are identities of FS, 0 is an object that FS does not have.     *)
(* Nothing is said of the order in which space is handed out.              *)
(***************************************************************************)
EXTENDS FS, SequencesExt

NoLayout == [next |-> 0, own |-> <<>>, free |-> <<>>, v1 |-> <<>>, olds |-> <<>>, ents |-> <<>>, names |-> <<>>,
             ch |-> <<>>, ch1 |-> <<>>, csk |-> 4, pg |-> 0, old |-> 0]

Els(q) == ToSet(q)
Alive(s, n) == n \in 1..MaxNodes /\ s.nodes[n].ty # "x"
(* what is stored for the content of a file: the host of a mount keeps its own *)
HostSize(s, n) == IF s.nodes[n].ty = "f" THEN s.nodes[n].sz ELSE 0
Taken(y) == {o[3] : o \in Els(y.own)}
Keys(y) == {<<o[1], o[2]>> : o \in Els(y.own)}

(* every address is a chunk that was handed out *)
InRange(y) == \A p \in Taken(y) \cup Els(y.free) : p >= 0 /\ p < y.next
(* nothing has two owners or is free and owned *)
OwnedOnce(y) == /\ Cardinality(Taken(y) \cup Els(y.free)) = Len(y.own) + Len(y.free)
                /\ Cardinality(Keys(y)) = Len(y.own)
(* nothing that was handed out is forgotten *)
NothingLost(y) == Cardinality(Taken(y) \cup Els(y.free)) = y.next
(* only what exists owns space, and only as much as it needs *)
NoLeak(s, y) ==
    /\ \A o \in Els(y.own) :
          /\ Alive(s, o[1])
          /\ CASE o[2] = -1 -> TRUE
               [] o[2] = -2 -> s.nodes[o[1]].mm # <<>>
               [] OTHER -> o[2] < y.ch[HostSize(s, o[1]) + 1]
    /\ \A o \in Els(y.v1) : Alive(s, o[1]) /\ o[2] < y.ch1[HostSize(s, o[1]) + 1]
    /\ \A n \in Els(y.olds) : Alive(s, n)
(* the entries are those of the directories that exist *)
Entries(s, y) ==
    {<<e[1], e[3], e[4]>> : e \in Els(y.ents)}
        = UNION {{<<d, s.nodes[d].ents[k][1], s.nodes[d].ents[k][2]>> : k \in 1..Len(s.nodes[d].ents)} : d \in {n \in 1..MaxNodes : Alive(s, n)}}
(* the index of names and the entries agree *)
Indexed(y) ==
    LET E == {<<e[1], e[3], e[2]>> : e \in Els(y.ents)} N == Els(y.names) IN
    /\ N \subseteq E
    /\ y.old = 1 \/ E \subseteq N
(* no more memory than the chunks need *)
Pages(y) == y.pg <= (y.next * y.csk + 63) \div 64

LayoutLabel(s, y) ==
    IF ~InRange(y) THEN "space:range"
    ELSE IF ~OwnedOnce(y) THEN "space:shared"
    ELSE IF ~NoLeak(s, y) THEN "space:leak"
    ELSE IF ~NothingLost(y) THEN "space:lost"
    ELSE IF ~Entries(s, y) THEN "space:entries"
    ELSE IF ~Indexed(y) THEN "space:index"
    ELSE IF ~Pages(y) THEN "space:pages"
    ELSE ""

(* The most space that was in use at one time: a call may need the space of
   what it adds before it gives back anything. *)
PeakAfter(peak, y, z) == Max(peak, Len(y.own) + Cardinality(Keys(z) \ Keys(y)))
(* space grows only for what is in use *)
Grown(peak, z) == z.next > peak
=============================================================================
