-------------------------------- MODULE Thin --------------------------------
(***************************************************************************)
(* device-mapper thin provisioning (dm/btree.py, dm/thin.py).              *)
(* Family "tree": B-trees of all shapes over small key sets; the descent   *)
(* with binary search finds exactly the stored entries.                    *)
(* Family "read": a thin device is read block by block through its mapping;*)
(* holes read as zeros wherever they are.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family, MaxKey, MaxBlocks

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

-----------------------------------------------------------------------------
(* Trees: a node is [leaf, keys, kids]; kids of a leaf are its values       *)
Leaf(keys) == [leaf |-> TRUE, keys |-> keys, kids |-> keys]     \* the value of a key is the key itself

\* all ways to cut a sequence into consecutive non-empty pieces
RECURSIVE Cuts(_)
Cuts(s) == IF s = <<>> THEN {<<>>}
           ELSE UNION {{<<SubSeq(s, 1, i)>> \o rest : rest \in Cuts(SubSeq(s, i + 1, Len(s)))} : i \in 1 .. Len(s)}

LowKey(t) == t.keys[1]
RECURSIVE HighKey(_)
HighKey(t) == IF t.leaf THEN t.keys[Len(t.keys)] ELSE HighKey(t.kids[Len(t.kids)])
\* the separator of a subtree is at most its smallest key and above everything before it
Over(kids, lag) == TLCEval(
    [leaf |-> FALSE, kids |-> kids,
     keys |-> [i \in 1 .. Len(kids) |->
                 IF ~lag THEN LowKey(kids[i])
                 ELSE IF i = 1 THEN 0
                 ELSE HighKey(kids[i - 1]) + 1]])
LeavesOf(s) == {TLCEval([i \in 1 .. Len(c) |-> Leaf(c[i])]) : c \in Cuts(s)}
Depth1(s) == {Leaf(s)}
Depth2(s) == {Over(l, lag) : l \in LeavesOf(s), lag \in BOOLEAN}
Depth3(s) == UNION {{Over(TLCEval([i \in 1 .. Len(c) |-> Over(c[i], lag)]), lag) : c \in Cuts(l)} : l \in LeavesOf(s), lag \in BOOLEAN}
KeySeqs == {SetToSortSeq(S, <) : S \in SUBSET (0 .. MaxKey)}
TreesOf(s) == IF s = <<>> THEN {Leaf(s)} ELSE Depth1(s) \cup Depth2(s) \cup Depth3(s)
TreeConfig(t, k) == [id |-> "t", tree |-> t, key |-> k, map |-> <<>>, from |-> 0, len |-> 0]

(* Mappings: block number -> data block, or 0 for a hole                     *)
Hole == 0
ReadConfig(m, a, n) == [id |-> "r", tree |-> Leaf(<<>>), key |-> 0, map |-> m, from |-> a, len |-> n]
FromScenario(x) == [id |-> x.id, tree |-> Leaf(<<>>), key |-> 0, map |-> x.map, from |-> x.from, len |-> x.len]

-----------------------------------------------------------------------------
VARIABLES cfg, node, low, high, out, phase
vars == <<cfg, node, low, high, out, phase>>

Init == /\ IF Family = "tree"
           THEN \E s \in KeySeqs : \E t \in TreesOf(s) : \E k \in 0 .. MaxKey + 1 : cfg = TreeConfig(t, k)
           ELSE \/ \E n \in 1 .. MaxBlocks : \E m \in [1 .. n -> 0 .. 3] : \E a \in 0 .. n - 1 : \E l \in 1 .. n - a :
                      cfg = ReadConfig(m, a, l)
                \/ \E i \in 1 .. Len(Scenarios) : cfg = FromScenario(Scenarios[i])
        /\ node = cfg.tree /\ low = 0 /\ high = Len(cfg.tree.keys) + 1 /\ out = <<>> /\ phase = "search"

\* binary search for the largest key that is at most the wanted one: keys[low] < key < keys[high]
Search == /\ Family = "tree" /\ phase = "search" /\ high - low > 1
          /\ LET mid == low + ((high - low) \div 2)
                 k == node.keys[mid]
             IN  IF k = cfg.key THEN phase' = "descend" /\ low' = mid /\ UNCHANGED high
                 ELSE IF k < cfg.key THEN low' = mid /\ UNCHANGED <<phase, high>>
                 ELSE high' = mid /\ UNCHANGED <<phase, low>>
          /\ UNCHANGED <<cfg, node, out>>
Settle == Family = "tree" /\ phase = "search" /\ high - low <= 1 /\ phase' = "descend" /\ UNCHANGED <<cfg, node, low, high, out>>
Descend == /\ Family = "tree" /\ phase = "descend"
           /\ IF low = 0 THEN phase' = "done" /\ out' = <<>> /\ UNCHANGED <<node, low, high>>
              ELSE IF node.leaf
                   THEN phase' = "done" /\ out' = (IF node.keys[low] = cfg.key THEN <<node.kids[low]>> ELSE <<>>) /\ UNCHANGED <<node, low, high>>
                   ELSE /\ phase' = "search" /\ node' = node.kids[low] /\ low' = 0 /\ high' = Len(node.kids[low].keys) + 1
                        /\ UNCHANGED out
           /\ UNCHANGED cfg

\* one block per step
Step == /\ Family = "read" /\ phase = "search"
        /\ IF Len(out) = cfg.len THEN phase' = "done" /\ UNCHANGED out
           ELSE LET b == cfg.from + Len(out) + 1
                IN  out' = Append(out, IF b > Len(cfg.map) THEN Hole ELSE cfg.map[b]) /\ UNCHANGED phase
        /\ UNCHANGED <<cfg, node, low, high>>

\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == Search \/ Settle \/ Descend \/ Step \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Stored(_)
Stored(t) == IF t.leaf THEN {t.keys[i] : i \in 1 .. Len(t.keys)} ELSE UNION {Stored(t.kids[i]) : i \in 1 .. Len(t.kids)}

\* a tree finds exactly what it stores
FindsExactly == (Family = "tree" /\ phase = "done") => out = IF cfg.key \in Stored(cfg.tree) THEN <<cfg.key>> ELSE <<>>
\* the search interval always brackets the key
Brackets == (Family = "tree" /\ phase = "search") =>
    /\ low > 0 => node.keys[low] < cfg.key
    /\ high <= Len(node.keys) => node.keys[high] > cfg.key
\* every block of the window has its source, holes do not shorten the window
ReadsWindow == (Family = "read" /\ phase = "done") =>
    /\ Len(out) = cfg.len
    /\ \A i \in 1 .. cfg.len : out[i] = IF cfg.from + i <= Len(cfg.map) THEN cfg.map[cfg.from + i] ELSE Hole

Emit == /\ (Family = "tree" /\ phase = "done" /\ cfg.key = MaxKey + 1) => PrintT("@@" \o ToJson([id |-> "t", tree |-> cfg.tree, stored |-> Stored(cfg.tree)]))
        /\ (Family = "read" /\ phase = "done") =>
               PrintT("@@" \o ToJson([id |-> cfg.id, map |-> cfg.map, from |-> cfg.from, len |-> cfg.len, out |-> out]))
=============================================================================
