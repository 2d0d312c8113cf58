-------------------------------- MODULE Ddf ---------------------------------
(***************************************************************************)
(* SNIA DDF metadata (ddf/ddf.py).                                         *)
(* Family "convert": the RAID layout (in terms of Raid.tla) of every       *)
(* combination of primary level, qualifier, secondary level and counts.    *)
(* Family "assemble": disks arrive in some order; every disk has a table   *)
(* of configuration slots, some of which hold configuration records of     *)
(* virtual disks.  The newest record of a virtual disk defines it.         *)
(* Family "table": the tables of physical disks, virtual disks and         *)
(* configuration records, in which entries are unused.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family, MaxCount

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

-----------------------------------------------------------------------------
(* Layouts                                                                  *)
RAID0 == 0
RAID1 == 1
RAID4 == 4
RAID5 == 5
RAID6 == 6
RAID1E == 17
CONCAT == 31
None == [lvl |-> -9, lay |-> 0, n |-> 0]
Convert(c) ==
    LET R(lvl, lay) == [lvl |-> lvl, lay |-> lay, n |-> c.pec]
    IN  IF c.nsec > 1
        THEN IF c.prl = RAID1 /\ c.srl = 0
             THEN IF c.rlq = 0 /\ c.pec = 2 THEN [lvl |-> 10, lay |-> 258, n |-> c.nsec * 2]   \* 2 near copies
                  ELSE IF c.rlq = 1 /\ c.pec = 3 THEN [lvl |-> 10, lay |-> 259, n |-> c.nsec * 3] ELSE None
             ELSE None
        ELSE CASE c.prl = CONCAT -> R(-1, 0)
               [] c.prl = RAID0 /\ c.rlq = 0 -> R(0, 0)
               [] c.prl = RAID1 /\ c.rlq = 0 /\ c.pec = 2 -> R(1, 0)
               [] c.prl = RAID1 /\ c.rlq = 1 /\ c.pec = 3 -> R(1, 0)
               [] c.prl = RAID1E /\ c.rlq = 0 -> R(10, 258)      \* adjacent: 2 near copies
               [] c.prl = RAID1E /\ c.rlq = 1 -> R(10, 513)      \* 2 far copies
               [] c.prl = RAID4 /\ c.rlq = 1 -> R(4, 0)          \* parity on the last member
               [] c.prl = RAID5 /\ c.rlq = 0 -> R(5, 1)          \* parity 0, restart: right asymmetric
               [] c.prl = RAID5 /\ c.rlq = 2 -> R(5, 0)          \* parity N, restart: left asymmetric
               [] c.prl = RAID5 /\ c.rlq = 3 -> R(5, 2)          \* parity N, continue: left symmetric
               [] c.prl = RAID6 /\ c.rlq = 1 -> R(6, 8)
               [] c.prl = RAID6 /\ c.rlq = 2 -> R(6, 9)
               [] c.prl = RAID6 /\ c.rlq = 3 -> R(6, 10)
               [] OTHER -> None
ConvertConfigs == [prl : {RAID0, RAID1, 3, RAID4, RAID5, RAID6, RAID1E, CONCAT, 15, 21, 37}, rlq : 0 .. 4, srl : 0 .. 3,
                   pec : 1 .. MaxCount, nsec : 1 .. 3]

-----------------------------------------------------------------------------
(* Assembly                                                                 *)
Perms(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}
Gap == -1
\* VD 1: its newest record is on disks 1 and 2; once it was on disks 1 and 3.  VD 2 is on disks 2 and 3.
SmallRecs == << [grp |-> 1, vd |-> 1, seq |-> 7, sec |-> 0, nsec |-> 1, pec |-> 2, refs |-> <<1, 2>>, starts |-> <<2, 0>>],
                [grp |-> 1, vd |-> 1, seq |-> 6, sec |-> 0, nsec |-> 1, pec |-> 2, refs |-> <<1, 3>>, starts |-> <<1, 2>>],
                [grp |-> 1, vd |-> 2, seq |-> 3, sec |-> 0, nsec |-> 1, pec |-> 2, refs |-> <<Gap, 3, Gap, 2>>, starts |-> <<5, 0, 5, 3>>] >>
SmallSlots == {s \in [1 .. 2 -> 0 .. 3] : s[1] = 0 \/ s[2] = 0 \/ {s[1], s[2]} \in {{1, 3}, {2, 3}}}
SmallConfigs == {[id |-> "e", recs |-> SmallRecs, order |-> p,
                  disks |-> [i \in 1 .. 3 |-> [grp |-> 1, ref |-> i, hseq |-> h[i], slots |-> s[i]]]] :
                    p \in Perms(3), s \in [1 .. 3 -> SmallSlots], h \in {<<5, 6, 5>>, <<6, 5, 5>>}}
FromScenario(x) == [id |-> x.id, recs |-> x.recs, order |-> x.order, disks |-> x.disks]
\* a table: which entries are used, and how many more may follow
TableConfigs == UNION {[used : [1 .. k -> BOOLEAN], spare : 0 .. 2] : k \in 0 .. MaxCount}
                \cup {[used |-> Scenarios[i].used, spare |-> Scenarios[i].spare] : i \in 1 .. Len(Scenarios)}
Configs == IF Family = "convert" THEN ConvertConfigs
           ELSE IF Family = "table" THEN TableConfigs
           ELSE SmallConfigs \cup {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)}

VARIABLES cfg, n, slot, pds, best, phase
vars == <<cfg, n, slot, pds, best, phase>>
Init == cfg \in Configs /\ n = 1 /\ slot = 0 /\ pds = {} /\ best = {} /\ phase = "start"

ConvertStep == Family = "convert" /\ phase = "start" /\ phase' = "converted" /\ UNCHANGED <<cfg, n, slot, pds, best>>

Disk == cfg.disks[cfg.order[n]]
Busy == Family = "assemble" /\ phase = "start" /\ n <= Len(cfg.order)
TakeDisk == /\ Busy /\ slot = 0
            /\ pds' = pds \cup {[grp |-> Disk.grp, ref |-> Disk.ref, disk |-> cfg.order[n]]}
            /\ slot' = 1 /\ UNCHANGED <<cfg, n, best, phase>>
\* one configuration slot; a slot that holds no configuration record is passed over
Rec(r) == cfg.recs[r]
SameElement(r, q) == Rec(r).grp = Rec(q).grp /\ Rec(r).vd = Rec(q).vd /\ Rec(r).sec = Rec(q).sec
ScanSlot == /\ Busy /\ slot > 0 /\ slot <= Len(Disk.slots)
            /\ LET r == Disk.slots[slot]
                   old == {q \in best : r > 0 /\ SameElement(r, q)}
               IN  best' = IF r = 0 THEN best
                           ELSE IF \A q \in old : Rec(q).seq < Rec(r).seq THEN (best \ old) \cup {r} ELSE best
            /\ slot' = slot + 1 /\ UNCHANGED <<cfg, n, pds, phase>>
NextDisk == /\ Busy /\ slot > Len(Disk.slots)
            /\ n' = n + 1 /\ slot' = 0 /\ UNCHANGED <<cfg, pds, best, phase>>
Finish == /\ Family = "assemble" /\ phase = "start" /\ n > Len(cfg.order)
          /\ phase' = "built" /\ UNCHANGED <<cfg, n, slot, pds, best>>
\* entries are read until the populated ones are found; best holds the ones found, in the order of the table
Populated == Cardinality({i \in 1 .. Len(cfg.used) : cfg.used[i]})
ReadEntry == /\ Family = "table" /\ phase = "start" /\ Cardinality(best) < Populated /\ n <= Len(cfg.used) + cfg.spare
             /\ best' = IF cfg.used[n] THEN best \cup {n} ELSE best
             /\ n' = n + 1 /\ UNCHANGED <<cfg, slot, pds, phase>>
EndTable == /\ Family = "table" /\ phase = "start" /\ ~(Cardinality(best) < Populated /\ n <= Len(cfg.used) + cfg.spare)
            /\ phase' = "listed" /\ UNCHANGED <<cfg, n, slot, pds, best>>
\* nothing but these states is an end
End == phase # "start" /\ UNCHANGED vars
Next == ReadEntry \/ EndTable \/ ConvertStep \/ TakeDisk \/ ScanSlot \/ NextDisk \/ Finish \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* gaps in the member table are no members
Elements(r) == SelectSeq([i \in 1 .. Len(Rec(r).refs) |-> [ref |-> Rec(r).refs[i], start |-> Rec(r).starts[i]]], LAMBDA e : e.ref # Gap)
Index(r, i) == (IF Rec(r).nsec = 1 THEN 0 ELSE Rec(r).sec) * Rec(r).pec + i - 1
Map(rs, p) == UNION {{[idx |-> Index(r, i), disk |-> (CHOOSE q \in p : q.grp = Rec(r).grp /\ q.ref = Elements(r)[i].ref).disk, start |-> Elements(r)[i].start] :
                         i \in {j \in 1 .. Len(Elements(r)) : \E q \in p : q.grp = Rec(r).grp /\ q.ref = Elements(r)[j].ref}} : r \in rs}
VdIds(rs) == {[grp |-> Rec(r).grp, vd |-> Rec(r).vd] : r \in rs}
Of(rs, v) == {r \in rs : Rec(r).grp = v.grp /\ Rec(r).vd = v.vd}
Built(rs, p) == {[grp |-> v.grp, vd |-> v.vd, recs |-> Of(rs, v),
                  geo |-> {r \in Of(rs, v) : \A q \in Of(rs, v) : Rec(q).seq <= Rec(r).seq}, map |-> Map(Of(rs, v), p)] : v \in VdIds(rs)}

\* declaratively: what is on the disks, whatever the order
Present == {r \in 1 .. Len(cfg.recs) : \E d \in ToSet(cfg.order) : r \in ToSet(cfg.disks[d].slots)}
NewestRecs == {r \in Present : \A q \in Present : SameElement(r, q) => Rec(q).seq <= Rec(r).seq}
AllPds == {[grp |-> cfg.disks[d].grp, ref |-> cfg.disks[d].ref, disk |-> d] : d \in ToSet(cfg.order)}
OrderIndependent == phase = "built" => Built(best, pds) = Built(NewestRecs, AllPds)
NothingHidden == phase = "built" => \A r \in Present : \E q \in best : SameElement(r, q)
\* two members of a virtual disk never share an index, and a full table uses all of them
IndexesDisjoint == phase = "built" => \A v \in Built(best, pds) :
    /\ Cardinality({m.idx : m \in v.map}) = Cardinality(v.map)
    /\ \A m \in v.map : m.idx >= 0 /\ \A g \in v.geo : m.idx < Rec(g).pec * Rec(g).nsec
\* all used entries, nothing behind the table
ListsUsed == phase = "listed" => best = {i \in 1 .. Len(cfg.used) : cfg.used[i]} /\ n <= Len(cfg.used) + 1
Freshest(g) == LET ds == {d \in ToSet(cfg.order) : cfg.disks[d].grp = g}
               IN  {d \in ds : \A e \in ds : cfg.disks[e].hseq <= cfg.disks[d].hseq}

Emit ==
    /\ phase = "listed" => PrintT("@@" \o ToJson([used |-> cfg.used, spare |-> cfg.spare, populated |-> Populated, found |-> SetToSortSeq(best, <)]))
    /\ phase = "converted" =>
        PrintT("@@" \o ToJson([prl |-> cfg.prl, rlq |-> cfg.rlq, srl |-> cfg.srl, pec |-> cfg.pec, nsec |-> cfg.nsec,
                               lvl |-> Convert(cfg).lvl, lay |-> Convert(cfg).lay, n |-> Convert(cfg).n]))
    /\ phase = "built" =>
        PrintT("@@" \o ToJson([id |-> cfg.id, recs |-> cfg.recs, disks |-> cfg.disks, order |-> cfg.order,
            vds |-> SetToSeq({[grp |-> v.grp, vd |-> v.vd, geo |-> SetToSeq(v.geo), recs |-> SetToSeq(v.recs), map |-> SetToSeq(v.map),
                               names |-> SetToSeq(Freshest(v.grp))] : v \in Built(best, pds)})]))
=============================================================================
