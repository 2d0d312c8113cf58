-------------------------------- MODULE Bsd --------------------------------
(***************************************************************************)
(* BSD disklabels, 32 and 64 bit, standalone or inside partitions of an    *)
(* outer scheme (disk/schemes/bsd.py, disk/disk.py).                       *)
(*                                                                         *)
(* The disk is a sequence of outer partitions; outer = <<>> is a           *)
(* standalone label.  A label is [bits, slots]; a slot is [off, sz, fs].   *)
(* 32-bit labels hold absolute sectors, relative to the raw slice (slot 3);*)
(* 64-bit labels hold bytes relative to the label's container.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Big

CONSTANTS Enum, MaxSlots

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
Raw == 3

BaseOf(l) == IF l.bits = 32 /\ Len(l.slots) >= Raw THEN l.slots[Raw].off ELSE BZero

Listed(l, i) ==
    /\ i # Raw
    /\ l.slots[i].fs # 0
    /\ IF l.bits = 32 THEN l.slots[i].sz # BZero /\ BLe(BaseOf(l), l.slots[i].off)
       ELSE ~(l.slots[i].off = BZero /\ l.slots[i].sz = BZero)

Slice(l, i, ss, k) ==
    [outer |-> k, number |-> i, fs |-> l.slots[i].fs,
     off |-> IF l.bits = 32 THEN BMul(BSub(l.slots[i].off, BaseOf(l)), ss) ELSE l.slots[i].off,
     sz |-> IF l.bits = 32 THEN BMul(l.slots[i].sz, ss) ELSE l.slots[i].sz]

RECURSIVE SlicesFrom(_, _, _, _), DeclFrom(_, _)
SlicesFrom(l, i, ss, k) == IF i > Len(l.slots) THEN <<>>
                           ELSE (IF Listed(l, i) THEN <<Slice(l, i, ss, k)>> ELSE <<>>) \o SlicesFrom(l, i + 1, ss, k)
\* outer partition k is listed as itself (fs = -1) or replaced by its slices
Whole(k) == [outer |-> k, number |-> k, fs |-> -1, off |-> BZero, sz |-> BZero]
DeclFrom(c, k) == IF k > Len(c.outer) THEN <<>>
                  ELSE (IF c.outer[k] = 0 THEN <<Whole(k)>> ELSE SlicesFrom(c.labels[c.outer[k]], 1, c.ss, k))
                       \o DeclFrom(c, k + 1)
Decl(c) == IF c.outer = <<>> THEN SlicesFrom(c.labels[1], 1, c.ss, 0) ELSE DeclFrom(c, 1)

-----------------------------------------------------------------------------
S32(off, sz, fs) == [off |-> BigOf(off), sz |-> BigOf(sz), fs |-> fs]
Kinds32 == {S32(0, 0, 0), S32(16, 8, 7), S32(40, 8, 0), S32(40, 0, 7), S32(3, 5, 1)}
RawSlots == {S32(0, 64, 0), S32(16, 64, 0)}
Enum32 == {[id |-> "e", ss |-> ss, outer |-> o,
            labels |-> <<[bits |-> 32, slots |-> [i \in 1 .. MaxSlots |-> IF i = Raw THEN r ELSE f[IF i < Raw THEN i ELSE i - 1]]]>>] :
            ss \in {512, 4096}, o \in {<<>>, <<1>>, <<0, 1, 0>>}, r \in RawSlots, f \in [1 .. MaxSlots - 1 -> Kinds32]}
Kinds64 == {S32(0, 0, 0), S32(8192, 4096, 7), S32(0, 4096, 10), S32(8192, 0, 7), S32(40960, 512, 0)}
Enum64 == {[id |-> "e", ss |-> ss, outer |-> o,
            labels |-> <<[bits |-> 64, slots |-> [i \in 1 .. MaxSlots |-> f[i]]]>>] :
            ss \in {512}, o \in {<<>>, <<1>>, <<0, 1>>}, f \in [1 .. MaxSlots -> Kinds64]}
PadLabel(l) == [bits |-> l.bits, slots |-> [i \in 1 .. Len(l.slots) |->
                   [off |-> BigPad(l.slots[i].off), sz |-> BigPad(l.slots[i].sz), fs |-> l.slots[i].fs]]]
FromScenario(x) == [id |-> x.id, ss |-> x.ss, outer |-> x.outer,
                    labels |-> [i \in 1 .. Len(x.labels) |-> PadLabel(x.labels[i])]]
Configs == {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)} \cup (IF Enum THEN Enum32 \cup Enum64 ELSE {})

-----------------------------------------------------------------------------
VARIABLES cfg, k, i, base, parts, phase
vars == <<cfg, k, i, base, parts, phase>>

Init == cfg \in Configs /\ k = (IF cfg.outer = <<>> THEN 0 ELSE 1) /\ i = 0 /\ base = BZero /\ parts = <<>> /\ phase = "outer"

Cur == cfg.labels[IF cfg.outer = <<>> THEN 1 ELSE cfg.outer[k]]
More == k <= Len(cfg.outer)

\* next outer partition: pass through or open the label inside
Outer == /\ phase = "outer" /\ More
         /\ IF cfg.outer # <<>> /\ cfg.outer[k] = 0
            THEN parts' = Append(parts, Whole(k)) /\ k' = k + 1 /\ UNCHANGED <<i, base, phase>>
            ELSE phase' = "label" /\ i' = 1 /\ base' = BaseOf(Cur) /\ UNCHANGED <<parts, k>>
         /\ UNCHANGED cfg
ReadSlot == /\ phase = "label" /\ i <= Len(Cur.slots)
            /\ LET s == Cur.slots[i]
                   use == i # Raw /\ s.fs # 0
                          /\ (Cur.bits = 32 => s.sz # BZero /\ ~BLt(s.off, base))
                          /\ (Cur.bits = 64 => s.off # BZero \/ s.sz # BZero)
               IN  parts' = IF use THEN Append(parts,
                        [outer |-> k, number |-> i, fs |-> s.fs,
                         off |-> IF Cur.bits = 32 THEN BMul(BSub(s.off, base), cfg.ss) ELSE s.off,
                         sz |-> IF Cur.bits = 32 THEN BMul(s.sz, cfg.ss) ELSE s.sz]) ELSE parts
            /\ i' = i + 1 /\ UNCHANGED <<cfg, k, base, phase>>
EndLabel == /\ phase = "label" /\ i > Len(Cur.slots)
            /\ k' = k + 1 /\ phase' = "outer" /\ UNCHANGED <<cfg, i, base, parts>>
Finish == phase = "outer" /\ ~More /\ phase' = "done" /\ UNCHANGED <<cfg, k, i, base, parts>>
\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == Outer \/ ReadSlot \/ EndLabel \/ Finish \/ End
Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"outer", "label", "done"}
ListsExactly == phase = "done" => parts = Decl(cfg)
RawNeverListed == \A j \in 1 .. Len(parts) : parts[j].fs # -1 => parts[j].number # Raw
InPlace == \A a, b \in 1 .. Len(parts) : a < b => parts[a].outer <= parts[b].outer

Emit == phase = "done" => PrintT("@@" \o ToJson([id |-> cfg.id, ss |-> cfg.ss, outer |-> cfg.outer, labels |-> cfg.labels, parts |-> parts]))
=============================================================================
