--------------------------------- MODULE Lvm ---------------------------------
(***************************************************************************)
(* Logical volumes (lvm/metadata.py).  A logical volume is a list of       *)
(* segments; a segment interleaves stripes on physical volumes, or mirrors *)
(* other logical volumes, or takes its blocks from a thin pool (areas: its *)
(* data, its metadata, and for some an origin for blocks the pool has not).*)
(* Space is counted in units of which an extent has E.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

\* segments: [t, start, count, sz, areas]; areas: [o, x]: physical (or logical) volume and first extent
Seg(t, s, c, sz, a) == [t |-> t, start |-> s, count |-> c, sz |-> sz, areas |-> a]
Area(o, x) == [o |-> o, x |-> x]
Cfg(i, e, p, l, m, o) == [id |-> i, e |-> e, pvs |-> p, lvs |-> l, missing |-> m, order |-> o]

\* stripes of one segment: 1..3 areas on 3 physical volumes
AreaSeqs == UNION {{a \in [1 .. n -> [o : 1 .. 3, x : 0 .. 1]] : TRUE} : n \in 1 .. 3}
\* two segments behind each other, in either order in the text
TwoSegs(a, b, sz, c1, c2, rev) ==
    LET s1 == Seg("striped", 0, c1 * Len(a), sz, a)
        s2 == Seg("striped", c1 * Len(a), c2 * Len(b), sz, b)
    IN  IF rev THEN <<s2, s1>> ELSE <<s1, s2>>
Linear(o, x, c) == <<Seg("striped", 0, c, 0, <<Area(o, x)>>)>>

VARIABLES cfg, lv, u, out, phase
vars == <<cfg, lv, u, out, phase>>

Init ==
    /\ lv = 1 /\ u = 0 /\ out = <<>> /\ phase = "start"
    /\ CASE Family = "stripes" ->
              \/ \E a \in AreaSeqs : \E sz \in {1, 2} : \E c \in 1 .. 2 :
                   cfg = Cfg("e", 2, 3, <<<<Seg("striped", 0, c * Len(a), sz, a)>>>>, {}, <<1, 2, 3>>)
              \/ \E a \in {x \in AreaSeqs : Len(x) <= 2} : \E b \in {x \in AreaSeqs : Len(x) = 1 \/ (Len(x) = 2 /\ x[1].x = 0)} :
                 \E c1 \in 1 .. 2 : \E rev \in BOOLEAN :
                   cfg = Cfg("e", 2, 3, <<TwoSegs(a, b, 1, c1, 1, rev)>>, {}, <<3, 1, 2>>)
         [] Family = "missing" ->
              \* 1: one stripe on pv 1, 2: stripes on 1 and 2, 3: mirror of 4 and 5, 6: thin on the pool of 7 and 8, 9: segments on 1 and 3
              \E m \in SUBSET (1 .. 3) : \E o \in {f \in [1 .. 3 -> 1 .. 3] : \A i, j \in 1 .. 3 : i # j => f[i] # f[j]} :
              \E p \in [1 .. 5 -> 1 .. 3] :
                   cfg = Cfg("e", 1, 3,
                     << Linear(p[1], 0, 2), <<Seg("striped", 0, 2, 1, <<Area(p[1], 2), Area(p[2], 3)>>)>>,
                        <<Seg("mirror", 0, 2, 0, <<Area(4, 0), Area(5, 0)>>)>>, Linear(p[2], 4, 2), Linear(p[3], 6, 2),
                        <<Seg("thin", 0, 3, 0, <<Area(7, 0), Area(8, 0)>>)>>, Linear(p[4], 8, 2), Linear(p[5], 10, 2),
                        TwoSegs(<<Area(p[1], 12)>>, <<Area(p[3], 13)>>, 1, 1, 1, FALSE) >>,
                     m, SelectSeq(o, LAMBDA d : d \notin m))
         [] Family = "random" -> \E i \in 1 .. Len(Scenarios) : LET s == Scenarios[i]
                IN  cfg = Cfg(s.id, s.e, s.pvs, s.lvs, {s.missing[j] : j \in 1 .. Len(s.missing)}, s.order)

-----------------------------------------------------------------------------
(* Opening and reading as the reader does it                                 *)
Units(l) == FoldSeq(LAMBDA s, acc : acc + s.count * cfg.e, 0, cfg.lvs[l])
RECURSIVE CanOpen(_)
CanOpen(l) == \A i \in 1 .. Len(cfg.lvs[l]) :
    LET s == cfg.lvs[l][i]
    IN  CASE s.t = "striped" -> \A a \in 1 .. Len(s.areas) : s.areas[a].o \notin cfg.missing
          [] s.t = "mirror" -> \E a \in 1 .. Len(s.areas) : CanOpen(s.areas[a].o)
          [] s.t = "thin" -> \A a \in 1 .. Len(s.areas) : CanOpen(s.areas[a].o)
          [] OTHER -> FALSE
Covers(s, k) == s.start * cfg.e <= k /\ k < (s.start + s.count) * cfg.e
SegAt(l, k) == CHOOSE s \in {cfg.lvs[l][i] : i \in 1 .. Len(cfg.lvs[l])} : Covers(s, k)
\* places of unit k of a logical volume: the unit of a physical volume, one for every mirror leg
RECURSIVE Places(_, _)
Places(l, k) ==
    LET s == SegAt(l, k)
        w == k - s.start * cfg.e
        cnt == Len(s.areas)
    IN  CASE s.t = "striped" ->
               LET sz == IF cnt = 1 THEN s.count * cfg.e ELSE s.sz
                   c == w \div sz
                   a == s.areas[(c % cnt) + 1]
               IN  {[pv |-> a.o, x |-> a.x * cfg.e + (c \div cnt) * sz + (w % sz)]}
          [] s.t = "mirror" -> UNION {Places(s.areas[a].o, s.areas[a].x * cfg.e + w) : a \in 1 .. cnt}
          [] OTHER -> {}

NextLv == lv' = lv + 1 /\ u' = 0 /\ phase' = IF lv = Len(cfg.lvs) THEN "done" ELSE "start"
Open == /\ phase = "start"
        /\ IF CanOpen(lv) THEN phase' = "read" /\ out' = Append(out, [ok |-> TRUE, units |-> <<>>]) /\ UNCHANGED <<lv, u>>
           ELSE NextLv /\ out' = Append(out, [ok |-> FALSE, units |-> <<>>])
        /\ UNCHANGED cfg
Read == /\ phase = "read" /\ UNCHANGED cfg
        /\ IF u = Units(lv) THEN NextLv /\ UNCHANGED out
           ELSE out' = [out EXCEPT ![lv].units = Append(@, Places(lv, u))] /\ u' = u + 1 /\ UNCHANGED <<lv, phase>>
\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == Open \/ Read \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a segment means: row r of area a, unit o within the stripe           *)
Striped(s, k, pv, x) ==
    \E a \in 1 .. Len(s.areas) :
        LET n == Len(s.areas)
            len == (s.count * cfg.e) \div n            \* units of every area
            sz == IF n = 1 THEN len ELSE s.sz
        IN  \E r \in 0 .. (len \div sz) - 1 : \E o \in 0 .. sz - 1 :
                /\ pv = s.areas[a].o /\ x = s.areas[a].x * cfg.e + r * sz + o
                /\ k = s.start * cfg.e + (r * n + a - 1) * sz + o
SegsOf(l) == {cfg.lvs[l][i] : i \in 1 .. Len(cfg.lvs[l])}
IsStriped(l) == \A s \in SegsOf(l) : s.t = "striped"
WellFormed == /\ \A l \in 1 .. Len(cfg.lvs) : \A k \in 0 .. Units(l) - 1 : Cardinality({i \in 1 .. Len(cfg.lvs[l]) : Covers(cfg.lvs[l][i], k)}) = 1
              /\ \A l \in 1 .. Len(cfg.lvs) : \A s \in SegsOf(l) :
                    s.t = "striped" => /\ s.count % Len(s.areas) = 0
                                       /\ Len(s.areas) > 1 => ((s.count * cfg.e) \div Len(s.areas)) % s.sz = 0
\* striped volumes: every unit comes from where the segments say
Mapped == (phase = "done" /\ Family # "missing") =>
    \A l \in 1 .. Len(cfg.lvs) : (IsStriped(l) /\ out[l].ok) =>
        /\ Len(out[l].units) = Units(l)
        /\ \A k \in 1 .. Units(l) : LET p == CHOOSE q \in out[l].units[k] : TRUE IN
            /\ Cardinality(out[l].units[k]) = 1
            /\ \E s \in SegsOf(l) : Striped(s, k - 1, p.pv, p.x)
\* no unit of a segment is used twice
RECURSIVE Distinct(_, _, _)
Distinct(s, k, seen) == IF k = s.count * cfg.e THEN TRUE
    ELSE LET sz == IF Len(s.areas) = 1 THEN s.count * cfg.e ELSE s.sz
             q == <<(k \div sz) % Len(s.areas), ((k \div sz) \div Len(s.areas)) * sz + (k % sz)>>
         IN  q \notin seen /\ q[2] < (s.count * cfg.e) \div Len(s.areas) /\ Distinct(s, k + 1, seen \cup {q})
NoReuse == phase = "done" => \A l \in 1 .. Len(cfg.lvs) : \A s \in SegsOf(l) : s.t = "striped" => Distinct(s, 0, {})
\* volumes that do not need a missing one open, and no unit comes from a missing volume without an alternative
RECURSIVE Needs(_)
Needs(l) == UNION {CASE s.t = "striped" -> {s.areas[a].o : a \in 1 .. Len(s.areas)}
                     [] s.t \in {"mirror", "thin"} -> UNION {Needs(s.areas[a].o) : a \in 1 .. Len(s.areas)}
                     [] OTHER -> {} : s \in SegsOf(l)}
Outcome == phase = "done" => \A l \in 1 .. Len(cfg.lvs) :
    /\ (Needs(l) \cap cfg.missing = {} /\ \A s \in SegsOf(l) : s.t # "other") => out[l].ok
    /\ out[l].ok => \A k \in 1 .. Len(out[l].units) : out[l].units[k] # {} => \E p \in out[l].units[k] : p.pv \notin cfg.missing
    /\ (~out[l].ok /\ \A s \in SegsOf(l) : s.t # "other") => Needs(l) \cap cfg.missing # {}

Emit == phase = "done" => PrintT("@@" \o ToJson([id |-> cfg.id, e |-> cfg.e, pvs |-> cfg.pvs, lvs |-> cfg.lvs, missing |-> cfg.missing,
            order |-> cfg.order, out |-> out]))
=============================================================================
