-------------------------------- MODULE Mbr --------------------------------
(***************************************************************************)
(* Master boot records and chains of extended boot records                 *)
(* (disk/schemes/mbr.py).                                                  *)
(*                                                                         *)
(* A configuration is a tree of 4-slot tables (node 1 is the MBR).  An     *)
(* entry is [t, ofs, sz, fl, to]: type, sector offset, sector count (Big), *)
(* boot flag and, for containers, the table it leads to.  The declarative  *)
(* part says where each table lives and which partitions exist; the state  *)
(* machine walks the tables with an explicit stack as the reader does.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Big

CONSTANT Enum      \* TRUE: also walk all enumerated shapes

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

ExtTypes == {5, 15, 133}
IsExt(e) == e.t \in ExtTypes
Nil == [t |-> 0, ofs |-> BZero, sz |-> BZero, fl |-> 0, to |-> 0]

-----------------------------------------------------------------------------
(* Declarative meaning                                                      *)

ParentOf(c, n) == CHOOSE ps \in (1 .. Len(c.nodes)) \X (1 .. 4) : c.nodes[ps[1]][ps[2]].to = n

RECURSIVE OuterLoc(_, _), Loc(_, _)
\* sector of table n, relative to the start of the disk
Loc(c, n) ==
    IF n = 1 THEN BZero
    ELSE LET ps == ParentOf(c, n)
             e == c.nodes[ps[1]][ps[2]]
         IN  IF ps[1] = 1 THEN e.ofs ELSE BAdd(OuterLoc(c, ps[1]), e.ofs)
\* sector of the top-level container that table n belongs to
OuterLoc(c, n) == LET ps == ParentOf(c, n) IN IF ps[1] = 1 THEN Loc(c, n) ELSE OuterLoc(c, ps[1])

RECURSIVE PartsOf(_, _, _), PartsFrom(_, _, _, _)
PartsFrom(c, n, s, sum) ==
    IF s > 4 THEN <<>>
    ELSE LET e == c.nodes[n][s]
             here == IF e.t = 0 THEN <<>>
                     ELSE IF IsExt(e) THEN PartsOf(c, e.to, sum + s - 1)
                     ELSE <<[number |-> sum + s, lba |-> BAdd(Loc(c, n), e.ofs), sz |-> e.sz, t |-> e.t, fl |-> e.fl]>>
         IN  here \o PartsFrom(c, n, s + 1, sum)
PartsOf(c, n, sum) == PartsFrom(c, n, 1, sum)

DeclParts(c) == PartsOf(c, 1, 0)

\* no two tables share a place (otherwise it is not this tree that is on disk)
Placed(c) == \A i, j \in 1 .. Len(c.nodes) : i # j => Loc(c, i) # Loc(c, j)

-----------------------------------------------------------------------------
(* Enumerated shapes: every slot of the MBR is empty, a partition, or a     *)
(* container with one of the chains below                                   *)

Pat(p) == CASE p = "0" -> <<0, 0, 0, 0>>
            [] p = "L" -> <<1, 0, 0, 0>>
            [] p = "LN" -> <<1, 2, 0, 0>>
            [] p = "N" -> <<0, 2, 0, 0>>
            [] p = "NL" -> <<2, 1, 0, 0>>
            [] p = "LNL" -> <<1, 2, 1, 0>>
            [] p = "L4" -> <<0, 0, 0, 1>>
Chains == {<<"0">>, <<"L">>, <<"LN", "L">>, <<"N", "L">>, <<"NL", "L">>, <<"LN", "LN", "L">>, <<"LNL", "L4">>}
SlotKinds == {<<"E">>, <<"P">>} \cup {<<"X">> \o ch : ch \in Chains}
TopShapes == [1 .. 4 -> SlotKinds]

RECURSIVE FirstNode(_, _)
\* index of the first table of the chain in slot s
FirstNode(sh, s) == IF s = 1 THEN 2 ELSE FirstNode(sh, s - 1) + (Len(sh[s - 1]) - 1)

ExtTypeFor(s) == <<5, 15, 133, 5>>[s]

TopEntry(sh, s) ==
    CASE sh[s][1] = "E" -> Nil
      [] sh[s][1] = "P" -> [t |-> 128 + s, ofs |-> BigOf(40 * s), sz |-> BigOf(7 + s), fl |-> IF s = 2 THEN 128 ELSE 0, to |-> 0]
      [] OTHER -> [t |-> ExtTypeFor(s), ofs |-> BigOf(1000 * s), sz |-> BigOf(900), fl |-> 0, to |-> FirstNode(sh, s)]

ChainNode(sh, s, j) ==
    [k \in 1 .. 4 |->
        CASE Pat(sh[s][j + 1])[k] = 0 -> Nil
          [] Pat(sh[s][j + 1])[k] = 1 ->
                [t |-> 10 + j, ofs |-> BigOf(2 + k), sz |-> BigOf(30 + j), fl |-> 0, to |-> 0]
          [] OTHER ->
                [t |-> ExtTypeFor(j), ofs |-> BigOf(100 * j), sz |-> BigOf(90), fl |-> 0, to |-> FirstNode(sh, s) + j]]

RECURSIVE ChainNodes(_, _, _), AllChains(_, _)
ChainNodes(sh, s, j) == IF j > Len(sh[s]) - 1 THEN <<>> ELSE <<ChainNode(sh, s, j)>> \o ChainNodes(sh, s, j + 1)
AllChains(sh, s) == IF s > 4 THEN <<>> ELSE ChainNodes(sh, s, 1) \o AllChains(sh, s + 1)

ShapeCfg(sh) == [id |-> "e", nodes |-> <<[s \in 1 .. 4 |-> TopEntry(sh, s)]>> \o AllChains(sh, 1)]

PadNode(n) == [s \in 1 .. 4 |-> [n[s] EXCEPT !.ofs = BigPad(@), !.sz = BigPad(@)]]
FromScenario(x) == [id |-> x.id, nodes |-> [i \in 1 .. Len(x.nodes) |-> PadNode(x.nodes[i])]]

Configs == {c \in {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)} : Placed(c)}
           \cup (IF Enum THEN {ShapeCfg(sh) : sh \in TopShapes} ELSE {})

-----------------------------------------------------------------------------
(* The reader                                                               *)

VARIABLES cfg, stack, parts, phase
vars == <<cfg, stack, parts, phase>>

NoOuter == <<>>
NodeAt(lba) == CHOOSE n \in 1 .. Len(cfg.nodes) : Loc(cfg, n) = lba

Init == /\ cfg \in Configs
        /\ stack = <<[node |-> 1, slot |-> 1, num |-> 0, base |-> BZero, outer |-> NoOuter]>>
        /\ parts = <<>>
        /\ phase = "walk"

Top == stack[Len(stack)]
Advance(st) == [st EXCEPT ![Len(st)].slot = @ + 1]
Entry == cfg.nodes[Top.node][Top.slot]

SkipEmpty == /\ phase = "walk" /\ stack # <<>> /\ Top.slot <= 4 /\ Entry.t = 0
             /\ stack' = Advance(stack)
             /\ UNCHANGED <<cfg, parts, phase>>

Partition == /\ phase = "walk" /\ stack # <<>> /\ Top.slot <= 4 /\ Entry.t # 0 /\ ~IsExt(Entry)
             /\ parts' = Append(parts, [number |-> Top.num + Top.slot, lba |-> BAdd(Top.base, Entry.ofs),
                                        sz |-> Entry.sz, t |-> Entry.t, fl |-> Entry.fl])
             /\ stack' = Advance(stack)
             /\ UNCHANGED <<cfg, phase>>

Descend == /\ phase = "walk" /\ stack # <<>> /\ Top.slot <= 4 /\ IsExt(Entry)
           /\ LET at == IF Top.outer = NoOuter THEN BAdd(Top.base, Entry.ofs) ELSE BAdd(Top.outer, Entry.ofs)
              IN  stack' = Append(Advance(stack),
                        [node |-> NodeAt(at), slot |-> 1, num |-> Top.num + Top.slot - 1, base |-> at,
                         outer |-> IF Top.outer = NoOuter THEN at ELSE Top.outer])
           /\ UNCHANGED <<cfg, parts, phase>>

Return == /\ phase = "walk" /\ stack # <<>> /\ Top.slot > 4
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ phase' = IF Len(stack) = 1 THEN "done" ELSE "walk"
          /\ UNCHANGED <<cfg, parts>>

\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == SkipEmpty \/ Partition \/ Descend \/ Return \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == phase \in {"walk", "done"} /\ (phase = "done" <=> stack = <<>>)

ListsExactly == phase = "done" => parts = DeclParts(cfg)

\* containers are never listed and every non-container entry is listed once
CountExact ==
    phase = "done" =>
        Len(parts) = Cardinality({<<n, s>> \in (1 .. Len(cfg.nodes)) \X (1 .. 4) :
                                    cfg.nodes[n][s].t # 0 /\ ~IsExt(cfg.nodes[n][s])})
PrimariesBySlot ==
    phase = "done" => \A s \in 1 .. 4 :
        LET e == cfg.nodes[1][s]
        IN (e.t # 0 /\ ~IsExt(e)) => \E i \in 1 .. Len(parts) : parts[i].number = s /\ parts[i].lba = e.ofs

StackBounded == Len(stack) <= Len(cfg.nodes)

Emit == phase = "done" =>
    PrintT("@@" \o ToJson([id |-> cfg.id, nodes |-> cfg.nodes,
                           locs |-> [n \in 1 .. Len(cfg.nodes) |-> Loc(cfg, n)],
                           parts |-> parts]))
=============================================================================
