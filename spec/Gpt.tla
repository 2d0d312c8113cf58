-------------------------------- MODULE Gpt --------------------------------
(***************************************************************************)
(* GUID partition tables, protective and hybrid MBRs (disk/schemes/gpt.py).*)
(*                                                                         *)
(* A configuration has the four MBR slots (type and place), the header's   *)
(* entry count, and the entry array.  An entry is [nil, first, last, name] *)
(* where nil says whether the type GUID is nil; GUIDs and flags are opaque *)
(* to the model and identified by the entry index.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Big

CONSTANTS Enum, MaxCount

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
EE == 238

-----------------------------------------------------------------------------
(* Names: up to the first NUL, without leading and trailing non-characters  *)
RECURSIVE UpToNul(_, _), LStrip(_), RStrip(_)
UpToNul(s, i) == IF i > Len(s) \/ s[i] = 0 THEN <<>> ELSE <<s[i]>> \o UpToNul(s, i + 1)
LStrip(s) == IF s # <<>> /\ Head(s) = 65535 THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] = 65535 THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
NameOf(s) == RStrip(LStrip(UpToNul(s, 1)))

Used(e) == ~e.nil /\ e.first # BZero

GptPart(c, i) ==
    LET e == c.entries[i]
    IN  [kind |-> "gpt", number |-> i, idx |-> i, off |-> BMul(e.first, c.ss),
         sz |-> BMul(BAdd(BSub(e.last, e.first), BigOf(1)), c.ss),
         \* the size the reader is known to report: one sector short
         szdev |-> BMul(BSub(e.last, e.first), c.ss),
         name |-> NameOf(e.name)]
MbrPart(c, s) ==
    [kind |-> "mbr", number |-> s, idx |-> s, off |-> BMul(c.mbr[s].ofs, c.ss), sz |-> BMul(c.mbr[s].sz, c.ss),
     szdev |-> BMul(c.mbr[s].sz, c.ss), name |-> <<>>]

\* declarative: the list of GPT entries stands in place of the first protective entry
RECURSIVE DeclGpt(_, _), DeclFrom(_, _, _)
DeclGpt(c, i) == IF i > c.count THEN <<>>
                 ELSE (IF Used(c.entries[i]) THEN <<GptPart(c, i)>> ELSE <<>>) \o DeclGpt(c, i + 1)
DeclFrom(c, s, seen) ==
    IF s > 4 THEN <<>>
    ELSE CASE c.mbr[s].t = 0 -> DeclFrom(c, s + 1, seen)
           [] c.mbr[s].t = EE -> (IF seen THEN <<>> ELSE DeclGpt(c, 1)) \o DeclFrom(c, s + 1, TRUE)
           [] OTHER -> <<MbrPart(c, s)>> \o DeclFrom(c, s + 1, seen)
Decl(c) == DeclFrom(c, 1, FALSE)

-----------------------------------------------------------------------------
(* Configurations                                                           *)
SlotOf(k, s) == CASE k = 0 -> [t |-> 0, ofs |-> BZero, sz |-> BZero]
                  [] k = 1 -> [t |-> EE, ofs |-> BigOf(1), sz |-> BigOf(60000)]
                  [] k = 2 -> [t |-> 128 + s, ofs |-> BigOf(200 + 10 * s), sz |-> BigOf(5 + s)]
                  [] k = 3 -> [t |-> EE, ofs |-> BigOf(70), sz |-> BigOf(9)]

EntryOf(k, i) == CASE k = 0 -> [nil |-> TRUE, first |-> BZero, last |-> BZero, name |-> <<>>]
                   [] k = 1 -> [nil |-> FALSE, first |-> BigOf(64 + 16 * i), last |-> BigOf(64 + 16 * i + i), name |-> <<64 + i, 65>>]
                   [] k = 2 -> [nil |-> TRUE, first |-> BigOf(50), last |-> BigOf(60), name |-> <<77>>]

\* the first protective entry points at the header in LBA 1
SlotKinds == {f \in [1 .. 4 -> 0 .. 3] :
                /\ \E s \in 1 .. 4 : f[s] = 1
                /\ \A s \in 1 .. 4 : f[s] = 3 => \E t \in 1 .. (s - 1) : f[t] = 1
                /\ Cardinality({s \in 1 .. 4 : f[s] = 1}) = 1}
Enumerated ==
    {[id |-> "e", ss |-> ss, mbr |-> [s \in 1 .. 4 |-> SlotOf(k[s], s)], count |-> MaxCount,
      entries |-> [i \in 1 .. MaxCount |-> EntryOf(f[i], i)]] :
        ss \in {512, 4096}, k \in SlotKinds, f \in [1 .. MaxCount -> {0, 1}]}
    \cup {[id |-> "e", ss |-> 512, mbr |-> [s \in 1 .. 4 |-> SlotOf(k[s], s)], count |-> n,
      entries |-> [i \in 1 .. 3 |-> EntryOf(f[i], i)]] :
        n \in 0 .. 3, k \in {<<1, 0, 0, 0>>}, f \in [1 .. 3 -> 0 .. 2]}

PadSlot(m) == [t |-> m.t, ofs |-> BigPad(m.ofs), sz |-> BigPad(m.sz)]
PadEntry(e) == [nil |-> e.nil, first |-> BigPad(e.first), last |-> BigPad(e.last), name |-> e.name]
FromScenario(x) == [id |-> x.id, ss |-> x.ss, mbr |-> [s \in 1 .. 4 |-> PadSlot(x.mbr[s])], count |-> x.count,
                    entries |-> [i \in 1 .. Len(x.entries) |-> PadEntry(x.entries[i])]]

Configs == {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)} \cup (IF Enum THEN Enumerated ELSE {})

-----------------------------------------------------------------------------
(* The reader: walks the MBR slots, and the entry array at the first 0xEE   *)
VARIABLES cfg, slot, entry, seen, parts, phase
vars == <<cfg, slot, entry, seen, parts, phase>>

Init == cfg \in Configs /\ slot = 1 /\ entry = 0 /\ seen = FALSE /\ parts = <<>> /\ phase = "mbr"

MbrSlot == /\ phase = "mbr" /\ slot <= 4
           /\ IF cfg.mbr[slot].t = EE /\ ~seen
              THEN /\ phase' = "gpt" /\ entry' = 1 /\ UNCHANGED <<parts, slot, seen>>
              ELSE /\ parts' = IF cfg.mbr[slot].t \in {0, EE} THEN parts ELSE Append(parts, MbrPart(cfg, slot))
                   /\ slot' = slot + 1 /\ UNCHANGED <<phase, entry, seen>>
           /\ UNCHANGED cfg

GptEntry == /\ phase = "gpt"
            /\ IF entry > cfg.count
               THEN phase' = "mbr" /\ seen' = TRUE /\ slot' = slot + 1 /\ UNCHANGED <<parts, entry>>
               ELSE /\ parts' = IF Used(cfg.entries[entry]) THEN Append(parts, GptPart(cfg, entry)) ELSE parts
                    /\ entry' = entry + 1 /\ UNCHANGED <<phase, seen, slot>>
            /\ UNCHANGED cfg

Finish == phase = "mbr" /\ slot > 4 /\ phase' = "done" /\ UNCHANGED <<cfg, slot, entry, seen, parts>>
\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == MbrSlot \/ GptEntry \/ Finish \/ End
Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"mbr", "gpt", "done"}
ListsExactly == phase = "done" => parts = Decl(cfg)
EachUsedOnce == phase = "done" =>
    \A i \in 1 .. cfg.count :
        Cardinality({j \in 1 .. Len(parts) : parts[j].kind = "gpt" /\ parts[j].number = i}) = (IF Used(cfg.entries[i]) THEN 1 ELSE 0)
Ordered == phase = "done" =>
    \A i, j \in 1 .. Len(parts) : i < j /\ parts[i].kind = parts[j].kind => parts[i].number < parts[j].number

Emit == phase = "done" =>
    PrintT("@@" \o ToJson([id |-> cfg.id, ss |-> cfg.ss, mbr |-> cfg.mbr, count |-> cfg.count, entries |-> cfg.entries, parts |-> parts]))
=============================================================================
