--------------------------------- MODULE Vss ---------------------------------
(***************************************************************************)
(* Volume shadow copies (vss.py).  A history of the volume: snapshots are  *)
(* taken, blocks are written, freed and moved, and snapshots themselves    *)
(* are amended.  Before a block changes, the newest snapshot records it in *)
(* its store: a copy, or a forwarder to where its contents moved; overlays *)
(* amend parts of a block for one snapshot only.  The reader builds a map  *)
(* from the descriptors of every store and falls through newer snapshots   *)
(* to the live volume.  Whatever the history, a snapshot shows every block *)
(* that was in use as it was when the snapshot was taken.                  *)
(* A block is a pair of parts (in images: two disjoint sets of sectors);   *)
(* contents are identified by numbers, 0 stands for zeros.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Ops, MaxOps, NBlocks, MaxSnaps, UsedSets

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
Parts == {1, 2}

\* an operation: [op, b, c, s, p]
Op(o, b, c, s, p) == [op |-> o, b |-> b, c |-> c, s |-> s, p |-> p]

VARIABLES id, n, todo, live, used, snaps, next, ops
vars == <<id, n, todo, live, used, snaps, next, ops>>
Blocks == 0 .. n - 1

Start(k, u) == /\ n = k /\ used = u /\ live = [b \in 0 .. k - 1 |-> [p \in Parts |-> 2 * b + p]]
               /\ next = 2 * k + 1 /\ snaps = <<>> /\ ops = <<>>
Init == IF Ops # {} THEN id = "e" /\ todo = <<>> /\ \E u \in UsedSets : Start(NBlocks, u)
        ELSE \E i \in 1 .. Len(Scenarios) :
                /\ id = Scenarios[i].id /\ todo = Scenarios[i].ops
                /\ Start(Scenarios[i].n, {Scenarios[i].used[j] : j \in 1 .. Len(Scenarios[i].used)})

-----------------------------------------------------------------------------
(* The history                                                               *)
Newest == Len(snaps)
\* descriptors: [k |-> "copy" | "fwd" | "over", b, t, data, p]
Desc(k, b, t, d, p) == [k |-> k, b |-> b, t |-> t, data |-> d, p |-> p]
Self(d) == d.k = "fwd" /\ d.t = d.b
Has(s, b) == \E i \in 1 .. Len(s.list) : s.list[i].b = b /\ s.list[i].k # "over" /\ ~Self(s.list[i])
Target(s, b) == \E i \in 1 .. Len(s.list) : s.list[i].t = b /\ s.list[i].k = "fwd" /\ ~Self(s.list[i])
Sparse(s, b) == b \in s.free /\ (s.hasprev => b \in s.prev)

TakeSnap ==
    /\ Newest < MaxSnaps \/ Ops = {}
    /\ LET free == Blocks \ used
           prev == IF Newest = 0 THEN {} ELSE IF snaps[Newest].hasprev THEN snaps[Newest].free \cap snaps[Newest].prev ELSE snaps[Newest].free
       IN  snaps' = Append(snaps, [view |-> live, inuse |-> used, over |-> [b \in Blocks |-> [p \in Parts |-> 0]], list |-> <<>>,
                                   free |-> free, prev |-> prev, hasprev |-> Newest > 0])
    /\ UNCHANGED <<live, used, next>>
Write(b) ==
    /\ Newest > 0 => ~Target(snaps[Newest], b)
    /\ snaps' = IF Newest > 0 /\ ~Has(snaps[Newest], b) /\ ~Sparse(snaps[Newest], b)
                THEN [snaps EXCEPT ![Newest].list = Append(@, Desc("copy", b, 0, live[b], 0))] ELSE snaps
    /\ live' = [live EXCEPT ![b] = [p \in Parts |-> next + p - 1]]
    /\ next' = next + 2 /\ used' = used \cup {b}
Free(b) == b \in used /\ (Newest > 0 => ~Target(snaps[Newest], b)) /\ used' = used \ {b} /\ UNCHANGED <<live, snaps, next>>
\* contents move to a free block: the snapshot only records where they are now
Move(b, c) ==
    /\ Newest > 0 /\ b # c /\ b \in used /\ c \notin used /\ Sparse(snaps[Newest], c)
    /\ ~Has(snaps[Newest], b) /\ ~Target(snaps[Newest], b) /\ ~Target(snaps[Newest], c) /\ ~Has(snaps[Newest], c)
    /\ live' = [live EXCEPT ![c] = live[b]] /\ used' = (used \ {b}) \cup {c}
    /\ snaps' = [snaps EXCEPT ![Newest].list = Append(@, Desc("fwd", b, c, [p \in Parts |-> 0], 0))] /\ UNCHANGED next
\* a block that moved to where it is: recorded, but nothing happened
Stay(b) ==
    /\ Newest > 0 /\ ~Target(snaps[Newest], b) /\ UNCHANGED <<live, used, next>>
    /\ snaps' = [snaps EXCEPT ![Newest].list = Append(@, Desc("fwd", b, b, [p \in Parts |-> 0], 0))]
\* a part of a block of a snapshot is amended
Amend(s, b, p) ==
    /\ s <= Newest /\ next' = next + 1 /\ UNCHANGED <<live, used>>
    /\ snaps' = [snaps EXCEPT ![s].list = Append(@, Desc("over", b, 0, [q \in Parts |-> IF q = p THEN next ELSE 0], p)), ![s].over[b][p] = next]

Do(o) == /\ CASE o.op = "snap" -> TakeSnap
              [] o.op = "write" -> Write(o.b)
              [] o.op = "free" -> Free(o.b)
              [] o.op = "move" -> Move(o.b, o.c)
              [] o.op = "stay" -> Stay(o.b)
              [] o.op = "amend" -> Amend(o.s, o.b, o.p)
         /\ ops' = Append(ops, o) /\ UNCHANGED <<id, n>>
Alphabet == {Op("snap", 0, 0, 0, 0)} \cup {Op("write", b, 0, 0, 0) : b \in Blocks}
            \cup {Op("free", b, 0, 0, 0) : b \in Blocks} \cup {Op("move", b, c, 0, 0) : b \in Blocks, c \in Blocks}
            \cup {Op("stay", b, 0, 0, 0) : b \in Blocks}
            \cup {Op("amend", b, 0, s, p) : b \in {0}, s \in 1 .. Newest, p \in Parts}
Grow == Ops # {} /\ Len(ops) < MaxOps /\ \E o \in {x \in Alphabet : x.op \in Ops} : Do(o) /\ UNCHANGED todo
\* operations of a given history that are not possible are left out
Enabled(o) == CASE o.op = "snap" -> TRUE
                [] o.op = "write" -> Newest > 0 => ~Target(snaps[Newest], o.b)
                [] o.op = "free" -> o.b \in used /\ (Newest > 0 => ~Target(snaps[Newest], o.b))
                [] o.op = "move" -> /\ Newest > 0 /\ o.b # o.c /\ o.b \in used /\ o.c \notin used /\ Sparse(snaps[Newest], o.c)
                                    /\ ~Has(snaps[Newest], o.b) /\ ~Target(snaps[Newest], o.b) /\ ~Target(snaps[Newest], o.c) /\ ~Has(snaps[Newest], o.c)
                [] o.op = "stay" -> Newest > 0 /\ ~Target(snaps[Newest], o.b)
                [] o.op = "amend" -> o.s <= Newest
Feed == /\ Ops = {} /\ todo # <<>> /\ todo' = Tail(todo)
        /\ IF Enabled(Head(todo)) THEN Do(Head(todo)) ELSE UNCHANGED <<id, n, live, used, snaps, next, ops>>
\* nothing but these states is an end
End == (Ops # {} \/ todo = <<>>) /\ UNCHANGED vars
Next == Grow \/ Feed \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The reader: a map of every descriptor list, newest overlay data in place  *)
NoDesc == [k |-> "none", t |-> 0, data |-> [p \in Parts |-> 0], over |-> [p \in Parts |-> 0], rev |-> FALSE]
Add(m, d) ==
    LET e == m[d.b] IN
    IF Self(d) THEN m
    ELSE IF d.k = "over" THEN [m EXCEPT ![d.b].over = [p \in Parts |-> IF d.data[p] # 0 THEN d.data[p] ELSE @[p]]]
    ELSE LET m1 == [m EXCEPT ![d.b] = [e EXCEPT !.k = d.k, !.t = d.t, !.data = d.data]]
         IN  IF d.k = "fwd" THEN [m1 EXCEPT ![d.t].rev = TRUE] ELSE m1
MapOf(s) == FoldLeft(Add, [b \in Blocks |-> NoDesc], s.list)
RECURSIVE ReadBlock(_, _, _)
ReadBlock(s, b, active) ==
    LET e == MapOf(snaps[s])[b]
        last == s = Newest
        base == CASE e.k = "copy" -> e.data
                  [] e.k = "fwd" -> IF last THEN live[e.t] ELSE ReadBlock(s + 1, e.t, FALSE)
                  [] e.k = "none" -> IF ~last THEN ReadBlock(s + 1, b, FALSE)
                                     ELSE IF e.rev THEN live[b]
                                     ELSE IF Sparse(snaps[s], b) THEN [p \in Parts |-> 0]
                                     ELSE live[b]
    IN  IF active THEN [p \in Parts |-> IF e.over[p] # 0 THEN e.over[p] ELSE base[p]] ELSE base

(* What a snapshot is                                                        *)
Isolation == \A s \in 1 .. Newest : \A b \in snaps[s].inuse :
    ReadBlock(s, b, TRUE) = [p \in Parts |-> IF snaps[s].over[b][p] # 0 THEN snaps[s].over[b][p] ELSE snaps[s].view[b][p]]
Emit == (Newest > 0 /\ todo = <<>>) => PrintT("@@" \o ToJson([id |-> id, n |-> n, ops |-> ops, live |-> [i \in 1 .. n |-> live[i - 1]],
            snaps |-> [s \in 1 .. Newest |-> [list |-> snaps[s].list, free |-> snaps[s].free, prev |-> snaps[s].prev, hasprev |-> snaps[s].hasprev,
                                              read |-> [i \in 1 .. n |-> ReadBlock(s, i - 1, TRUE)]]]]))
=============================================================================
