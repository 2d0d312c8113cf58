------------------------------- MODULE LvmArea -------------------------------
(***************************************************************************)
(* Where LVM2 metadata is (lvm/physical.py, lvm/lvm2.py).                  *)
(* Family "ring": a metadata area is a circular buffer; a text may start   *)
(* near its end and continue at its beginning.                             *)
(* Family "choose": devices have no, one or several metadata areas, empty, *)
(* ignored or of different ages; the most recent text counts.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Family, MaxRing

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
Perms(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}

\* a metadata area: 0 is empty, otherwise the sequence number of its text; ignored areas are not kept up to date, and
\* areas with a damaged signature do not count at all
Area(s, i, b) == [seq |-> s, ign |-> i, bad |-> b]
Areas == {Area(0, FALSE, FALSE), Area(3, FALSE, FALSE), Area(4, FALSE, FALSE), Area(2, TRUE, FALSE), Area(5, FALSE, TRUE)}
Devices == {<<>>} \cup {<<a>> : a \in Areas} \cup {<<a, b>> : a \in Areas, b \in Areas}

VARIABLES cfg, n, out, phase
vars == <<cfg, n, out, phase>>
Ring(m, o, l) == [id |-> "ring", size |-> m, at |-> o, len |-> l, devs |-> <<>>, order |-> <<>>]
Choose(d, p) == [id |-> "choose", size |-> 0, at |-> 0, len |-> 0, devs |-> d, order |-> p]
Init == /\ n = 1 /\ out = <<>> /\ phase = "go"
        /\ IF Family = "ring" THEN \E m \in 1 .. MaxRing : \E o \in 0 .. m - 1 : \E l \in 1 .. m : cfg = Ring(m, o, l)
           ELSE \/ \E k \in 1 .. 3 : \E d \in [1 .. k -> Devices] : \E p \in Perms(k) :
                       (k = 3 => \A i \in 1 .. 3 : Len(d[i]) < 2) /\ cfg = Choose(d, p)
                \/ \E i \in 1 .. Len(Scenarios) : cfg = Choose(Scenarios[i].devs, Scenarios[i].order)

\* the text up to the end of the area, and the rest from the beginning
Front == IF cfg.at + cfg.len <= cfg.size THEN cfg.len ELSE cfg.size - cfg.at
ReadRing == /\ cfg.id = "ring" /\ phase = "go" /\ phase' = "done" /\ UNCHANGED <<cfg, n>>
            /\ out' = [i \in 1 .. Front |-> cfg.at + i - 1] \o [i \in 1 .. cfg.len - Front |-> i - 1]
Cells == (cfg.id = "ring" /\ phase = "done") =>
            /\ Len(out) = cfg.len
            /\ \A i \in 1 .. cfg.len : out[i] = (cfg.at + i - 1) % cfg.size

\* a device offers its usable area with the highest sequence number; ignored areas only if there is nothing else
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Filled(d) == {i \in 1 .. Len(d) : d[i].seq > 0 /\ ~d[i].bad}
Usable(d) == LET ok == {i \in Filled(d) : ~d[i].ign} IN IF ok # {} THEN ok ELSE Filled(d)
Offer(d) == IF Usable(d) = {} THEN 0 ELSE Max({d[i].seq : i \in Usable(d)})
Take == /\ cfg.id = "choose" /\ phase = "go" /\ n <= Len(cfg.order)
        /\ LET s == Offer(cfg.devs[cfg.order[n]])
           IN  out' = IF s = 0 THEN out ELSE IF out = <<>> \/ s > out[1] THEN <<s>> ELSE out
        /\ n' = n + 1 /\ UNCHANGED <<cfg, phase>>
Finish == cfg.id = "choose" /\ phase = "go" /\ n > Len(cfg.order) /\ phase' = "done" /\ UNCHANGED <<cfg, n, out>>
\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == ReadRing \/ Take \/ Finish \/ End
Spec == Init /\ [][Next]_vars

\* of all texts that are kept up to date, the newest is found, in any order
All == UNION {{<<d, i>> : i \in Filled(cfg.devs[d])} : d \in 1 .. Len(cfg.devs)}
Kept == {x \in All : ~cfg.devs[x[1]][x[2]].ign}
Newest == (cfg.id = "choose" /\ phase = "done") =>
            /\ (All = {}) = (out = <<>>)
            /\ \A x \in Kept : out[1] >= cfg.devs[x[1]][x[2]].seq
            /\ out # <<>> => \E x \in All : cfg.devs[x[1]][x[2]].seq = out[1]
Emit == phase = "done" => PrintT("@@" \o ToJson([id |-> cfg.id, size |-> cfg.size, at |-> cfg.at, len |-> cfg.len, devs |-> cfg.devs, order |-> cfg.order, out |-> out]))
=============================================================================
