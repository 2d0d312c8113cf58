-------------------------------- MODULE Raid --------------------------------
(***************************************************************************)
(* RAID volume reader of dissect.volume (raid/raid.py, raid/stream.py).    *)
(*                                                                         *)
(* A configuration is a level, a layout, a number of members and the       *)
(* capacity of every member in chunks.  The module contains                *)
(*                                                                         *)
(*   - the declarative layout: for every volume chunk, the set of places   *)
(*     (member, member chunk) that hold its copies, and the places that    *)
(*     hold parity (Decl..., Parity...);                                   *)
(*   - the reader as a state machine that walks the volume chunk by chunk  *)
(*     and computes one place per step with the closed formulas of the     *)
(*     implementation (Locate...), including loss of members before the    *)
(*     volume is opened;                                                   *)
(*   - invariants stating that the walk reads exactly the declared places  *)
(*     and that the declared layout is well formed (disjoint, in bounds).  *)
(*                                                                         *)
(* Final states print the configuration with all its places as JSON.  The  *)
(* conformance harness builds member images from these lines and replays   *)
(* the reads on the real code.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS
    Family,     \* "raid0" | "parity" | "raid10" | "linear" | "mirror" | "degraded"
    CU,         \* units per chunk in the modelled reads
    MaxN,       \* largest enumerated number of members
    MaxSz       \* largest enumerated member capacity (chunks)

LINEAR == -1

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

Min2(a, b) == IF a < b THEN a ELSE b
Range0(n) == 0 .. (n - 1)
MinSz(c) == Min({c.sz[i] : i \in 1 .. c.n})

-----------------------------------------------------------------------------
(* Declarative layouts                                                      *)

\* --- RAID0: row r consists of the members that have more than r chunks ----
RowMembers(c, r) == SetToSortSeq({m \in Range0(c.n) : c.sz[m + 1] > r}, <)

RECURSIVE RowsFrom(_, _, _)
RowsFrom(c, r, base) ==
    LET ms == RowMembers(c, r)
        nb == Len(ms)
    IN  IF nb = 0 THEN <<>>
        ELSE [i \in 1 .. nb |->
                [m |-> IF c.lay = 1 THEN ms[((base + i - 1) % nb) + 1] ELSE ms[i], r |-> r]]
             \o RowsFrom(c, r + 1, base + nb)

DeclRaid0(c) == [i \in 1 .. Len(RowsFrom(c, 0, 0)) |-> {RowsFrom(c, 0, 0)[i]}]

\* --- RAID4/5/6: parity positions of a row and the order of data members ---
HasQ(c) == c.lvl = 6
Q6(c) == c.lay \in 16 .. 20          \* RAID5 layouts with a dedicated Q member

PPos(c, r) ==
    LET n == c.n
        k == IF Q6(c) /\ HasQ(c) THEN n - 1 ELSE n     \* members that rotate
    IN  CASE c.lvl = 4 -> n - 1
          [] c.lvl # 4 /\ c.lay \in {0, 2, 10, 16, 18} -> k - 1 - (r % k)
          [] c.lvl # 4 /\ c.lay \in {1, 3, 8, 17, 19} -> r % k
          [] c.lvl # 4 /\ c.lay = 9 -> n - 1 - ((r + 1) % n)
          [] c.lvl # 4 /\ c.lay \in {4, 20} -> 0
          [] c.lvl # 4 /\ c.lay = 5 -> IF HasQ(c) THEN n - 2 ELSE n - 1

QPos(c, r) ==
    LET n == c.n
    IN  CASE Q6(c) -> n - 1
          [] c.lay = 10 -> (PPos(c, r) + n - 1) % n
          [] OTHER -> (PPos(c, r) + 1) % n

ParityAt(c, r) == {PPos(c, r)} \cup (IF HasQ(c) THEN {QPos(c, r)} ELSE {})

Continues(c) == c.lvl # 4 /\ c.lay \in {2, 3, 10, 18, 19}

\* data members of a row in volume order
DataOrder(c, r) ==
    LET n == c.n
        free == Range0(n) \ ParityAt(c, r)
        k == IF Q6(c) /\ HasQ(c) THEN n - 1 ELSE n
        start == IF c.lay = 10 THEN PPos(c, r)
                 ELSE IF HasQ(c) /\ ~Q6(c) THEN QPos(c, r) ELSE PPos(c, r)
    IN  IF Continues(c)
        THEN SetToSortSeq(free, LAMBDA a, b : ((a - start + k) % k) < ((b - start + k) % k))
        ELSE SetToSortSeq(free, <)

NData(c) == IF HasQ(c) THEN c.n - 2 ELSE c.n - 1

DeclParity(c) ==
    [i \in 1 .. MinSz(c) * NData(c) |->
        LET r == (i - 1) \div NData(c) IN {[m |-> DataOrder(c, r)[((i - 1) % NData(c)) + 1], r |-> r]}]

\* --- RAID10: lay = near | far << 8 | offset << 16 | sets << 17 ------------
Near(c) == c.lay % 256
Far(c) == (c.lay \div 256) % 256
Offs(c) == (c.lay \div 65536) % 2
Sets(c) == c.lay \div 131072
FarSet(c) == CASE Sets(c) = 0 -> c.n
               [] Sets(c) = 1 -> c.n \div Far(c)
               [] Sets(c) = 2 -> Far(c) * Near(c)
Raid10Chunks(c) == ((MinSz(c) \div Far(c)) * c.n) \div Near(c)
\* chunks per member of one far section
Stride(c) == IF Offs(c) = 1 THEN 1 ELSE MinSz(c) \div Far(c)

LastFarStart(c) == ((c.n \div FarSet(c)) - 1) * FarSet(c)
LastFarSize(c) == FarSet(c) + (c.n % FarSet(c))

RECURSIVE FarDev(_, _, _)
FarDev(c, d, f) ==
    IF f = 0 THEN d
    ELSE LET d0 == FarDev(c, d, f - 1)
             set == d0 \div FarSet(c)
             d1 == d0 + Near(c)
         IN  IF (c.n % FarSet(c)) # 0 /\ d1 > LastFarStart(c)
             THEN ((d1 - LastFarStart(c)) % LastFarSize(c)) + LastFarStart(c)
             ELSE (d1 % FarSet(c)) + FarSet(c) * set

CopiesRaid10(c, k) ==
    LET Slot(i) == LET s == k * Near(c) + i IN [m |-> s % c.n, r |-> s \div c.n]
        Base(i) == LET s0 == Slot(0) s == Slot(i)
                   IN  (IF Offs(c) = 1 THEN s0.r * Far(c) ELSE s0.r) + (s.r - s0.r)
    IN  {[m |-> FarDev(c, Slot(i).m, f), r |-> Base(i) + f * Stride(c)] :
            i \in 0 .. (Near(c) - 1), f \in 0 .. (Far(c) - 1)}

DeclRaid10(c) == [i \in 1 .. Raid10Chunks(c) |-> CopiesRaid10(c, i - 1)]

\* --- linear and mirror ----------------------------------------------------
RECURSIVE Concat(_, _)
Concat(c, m) == IF m = c.n THEN <<>>
                ELSE [i \in 1 .. c.sz[m + 1] |-> {[m |-> m, r |-> i - 1]}] \o Concat(c, m + 1)

DeclMirror(c) == [i \in 1 .. MinSz(c) |-> {[m |-> m, r |-> i - 1] : m \in Range0(c.n)}]

Decl(c) == CASE c.lvl = 0 -> DeclRaid0(c)
             [] c.lvl \in {4, 5, 6} -> DeclParity(c)
             [] c.lvl = 10 -> DeclRaid10(c)
             [] c.lvl = 1 -> DeclMirror(c)
             [] c.lvl = LINEAR -> Concat(c, 0)

ParityPlaces(c) == IF c.lvl \in {4, 5, 6}
                   THEN UNION {{[m |-> m, r |-> r] : m \in ParityAt(c, r)} : r \in Range0(MinSz(c))}
                   ELSE {}

-----------------------------------------------------------------------------
(* The reader's closed formulas                                             *)

\* --- RAID0 strip zones ----------------------------------------------------
SizesAbove(c, s) == {c.sz[i] : i \in {j \in 1 .. c.n : c.sz[j] > s}}

RECURSIVE ZonesFrom(_, _, _)
ZonesFrom(c, devstart, zend) ==
    IF SizesAbove(c, devstart) = {} THEN <<>>
    ELSE LET devs == SetToSortSeq({m \in Range0(c.n) : c.sz[m + 1] > devstart}, <)
             next == Min(SizesAbove(c, devstart))
             e == zend + (next - devstart) * Len(devs)
         IN  <<[start |-> zend, zend |-> e, dev |-> devstart, devs |-> devs]>> \o ZonesFrom(c, next, e)

Zones(c) == ZonesFrom(c, 0, 0)

LocRaid0(c, k) ==
    LET zs == Zones(c)
        zi == Min({i \in 1 .. Len(zs) : k < zs[i].zend})
        z == zs[zi]
        inz == k - z.start
        pick == IF c.lay = 1 \/ Len(zs) = 1 THEN k ELSE inz
    IN  [m |-> z.devs[(pick % Len(z.devs)) + 1], r |-> z.dev + (inz \div Len(z.devs))]

\* --- parity levels --------------------------------------------------------
LocParity(c, k) ==
    LET n == c.n
        dd == NData(c)
        s == k \div dd
        d == k % dd
        Skip(p) == IF d >= p THEN d + 1 ELSE d
        Skip2(p) == IF p = n - 1 THEN d + 1 ELSE IF d >= p THEN d + 2 ELSE d
        m == CASE c.lvl = 4 -> d
               [] c.lvl = 5 /\ c.lay = 0 -> Skip(dd - (s % n))
               [] c.lvl = 5 /\ c.lay = 1 -> Skip(s % n)
               [] c.lvl = 5 /\ c.lay = 2 -> (dd - (s % n) + 1 + d) % n
               [] c.lvl = 5 /\ c.lay = 3 -> ((s % n) + 1 + d) % n
               [] c.lvl = 5 /\ c.lay = 4 -> d + 1
               [] c.lvl = 5 /\ c.lay = 5 -> d
               [] c.lvl = 6 /\ c.lay = 0 -> Skip2(n - 1 - (s % n))
               [] c.lvl = 6 /\ c.lay \in {1, 8} -> Skip2(s % n)
               [] c.lvl = 6 /\ c.lay = 2 -> ((n - 1 - (s % n)) + 2 + d) % n
               [] c.lvl = 6 /\ c.lay = 3 -> ((s % n) + 2 + d) % n
               [] c.lvl = 6 /\ c.lay = 4 -> d + 2
               [] c.lvl = 6 /\ c.lay = 5 -> d
               [] c.lvl = 6 /\ c.lay = 9 -> Skip2(n - 1 - ((s + 1) % n))
               [] c.lvl = 6 /\ c.lay = 10 -> ((n - 1 - (s % n)) + 1 + d) % n
               [] c.lvl = 6 /\ c.lay = 16 -> Skip(dd - (s % (n - 1)))
               [] c.lvl = 6 /\ c.lay = 17 -> Skip(s % (n - 1))
               [] c.lvl = 6 /\ c.lay = 18 -> (dd - (s % (n - 1)) + 1 + d) % (n - 1)
               [] c.lvl = 6 /\ c.lay = 19 -> ((s % (n - 1)) + 1 + d) % (n - 1)
               [] c.lvl = 6 /\ c.lay = 20 -> d + 1
    IN  [m |-> m, r |-> s]

LocRaid10(c, k) ==
    LET s == k * Near(c)
    IN  [m |-> s % c.n, r |-> (s \div c.n) * (IF Offs(c) = 1 THEN Far(c) ELSE 1)]

RECURSIVE LocLinear(_, _, _)
LocLinear(c, k, m) == IF k < c.sz[m + 1] THEN [m |-> m, r |-> k] ELSE LocLinear(c, k - c.sz[m + 1], m + 1)

LocMirror(c, k, missing) == [m |-> Min(Range0(c.n) \ missing), r |-> k]

Locate(c, k, missing) ==
    CASE c.lvl = 0 -> LocRaid0(c, k)
      [] c.lvl \in {4, 5, 6} -> LocParity(c, k)
      [] c.lvl = 10 -> LocRaid10(c, k)
      [] c.lvl = 1 -> LocMirror(c, k, missing)
      [] c.lvl = LINEAR -> LocLinear(c, k, 0)

RECURSIVE SumSz(_, _)
SumSz(c, m) == IF m = c.n THEN 0 ELSE c.sz[m + 1] + SumSz(c, m + 1)

VolChunks(c) == CASE c.lvl \in {0, LINEAR} -> SumSz(c, 0)
                  [] c.lvl \in {4, 5, 6} -> MinSz(c) * NData(c)
                  [] c.lvl = 10 -> Raid10Chunks(c)
                  [] c.lvl = 1 -> MinSz(c)

\* the set refuses to open
CannotOpen(c, missing) ==
    CASE c.lvl \in {0, LINEAR} -> missing # {}
      [] c.lvl \in {4, 5} -> Cardinality(missing) > 1
      [] c.lvl = 6 -> Cardinality(missing) > 2
      [] c.lvl = 1 -> missing = Range0(c.n)
      [] c.lvl = 10 -> FALSE

-----------------------------------------------------------------------------
(* Configurations                                                           *)

Lay5 == 0 .. 5
Lay6 == (0 .. 5) \cup (8 .. 10) \cup (16 .. 20)

SeqsOf(S, n) == [1 .. n -> S]

EnumRaid0 == {[id |-> "e", lvl |-> 0, lay |-> l, n |-> n, sz |-> sz, probes |-> <<>>] :
                l \in {1, 2}, n \in {MaxN}, sz \in SeqsOf(1 .. MaxSz, MaxN)}
             \cup UNION {{[id |-> "e", lvl |-> 0, lay |-> l, n |-> n, sz |-> sz, probes |-> <<>>] :
                l \in {0, 1, 2}, sz \in SeqsOf(1 .. MaxSz, n)} : n \in 1 .. (MaxN - 1)}

\* parity sets get enough rows for two complete rotations
EnumParity ==
    UNION {{[id |-> "e", lvl |-> 5, lay |-> l, n |-> n, sz |-> [i \in 1 .. n |-> 2 * n + 1], probes |-> <<>>] :
                l \in Lay5} : n \in 2 .. MaxN}
    \cup UNION {{[id |-> "e", lvl |-> 6, lay |-> l, n |-> n, sz |-> [i \in 1 .. n |-> 2 * n + 1], probes |-> <<>>] :
                l \in Lay6} : n \in 4 .. MaxN}
    \cup UNION {{[id |-> "e", lvl |-> 4, lay |-> l, n |-> n, sz |-> [i \in 1 .. n |-> n + 1], probes |-> <<>>] :
                l \in {0, 4, 5}} : n \in 2 .. MaxN}

Disjoint(c) == \A i, j \in 1 .. Len(Decl(c)) :
                    i < j => (Decl(c)[i] \cap Decl(c)[j]) = {}
CopiesDistinct(c) == c.lvl = 10 => \A i \in 1 .. Len(Decl(c)) :
                    Cardinality({p.m : p \in Decl(c)[i]}) = Near(c) * Far(c)
InBounds(c) == \A i \in 1 .. Len(Decl(c)) : \A p \in Decl(c)[i] :
                    p.m \in Range0(c.n) /\ p.r \in 0 .. (c.sz[p.m + 1] - 1)

Raid10Cand ==
    UNION {{[id |-> "e", lvl |-> 10, lay |-> ne + 256 * fa + 65536 * o + 131072 * s,
             n |-> n, sz |-> [i \in 1 .. n |-> 2 * fa * ne + fa], probes |-> <<>>] :
                ne \in 1 .. 3, fa \in 1 .. 3, o \in {0, 1}, s \in {0, 1, 2}} : n \in 1 .. MaxN}

\* keep the layouts for which copies of a chunk live on different members and
\* different chunks never share a place (others are refused by the creator)
EnumRaid10 == {c \in Raid10Cand :
                 /\ Near(c) * Far(c) <= c.n
                 /\ (Offs(c) = 1 => Far(c) > 1)
                 /\ (Sets(c) # 0 => Far(c) > 1)
                 /\ (Sets(c) # 0 => FarSet(c) >= Near(c) * Far(c) /\ c.n % FarSet(c) = 0)
                 /\ (Far(c) > 1 => c.n % Near(c) = 0)
                 /\ CopiesDistinct(c) /\ InBounds(c) /\ Disjoint(c)}

EnumLinear == UNION {{[id |-> "e", lvl |-> LINEAR, lay |-> 0, n |-> n, sz |-> sz, probes |-> <<>>] :
                sz \in SeqsOf(1 .. MaxSz, n)} : n \in 1 .. MaxN}
EnumMirror == UNION {{[id |-> "e", lvl |-> 1, lay |-> 0, n |-> n, sz |-> [i \in 1 .. n |-> s], probes |-> <<>>] :
                s \in 1 .. MaxSz} : n \in 1 .. MaxN}

EnumDegraded ==
    {[id |-> "e", lvl |-> l, lay |-> 0, n |-> 3, sz |-> sz, probes |-> <<>>] :
        l \in {0, LINEAR}, sz \in {<<2, 2, 2>>, <<1, 2, 3>>, <<3, 1, 1>>}}
    \cup UNION {{[id |-> "e", lvl |-> 1, lay |-> 0, n |-> n, sz |-> [i \in 1 .. n |-> 3], probes |-> <<>>]} : n \in 1 .. 4}
    \cup {[id |-> "e", lvl |-> 5, lay |-> l, n |-> n, sz |-> [i \in 1 .. n |-> n + 1], probes |-> <<>>] :
            l \in Lay5, n \in {3, 4}}
    \cup {[id |-> "e", lvl |-> 6, lay |-> l, n |-> n, sz |-> [i \in 1 .. n |-> n + 1], probes |-> <<>>] :
            l \in Lay6, n \in {4, 5}}
    \cup {[id |-> "e", lvl |-> 4, lay |-> 0, n |-> n, sz |-> [i \in 1 .. n |-> 2], probes |-> <<>>] : n \in {3, 4}}
    \cup {c \in EnumRaid10 : c.n \in {2, 3, 4}}

FamilyOf(c) == CASE c.lvl = 0 -> "raid0" [] c.lvl \in {4, 5, 6} -> "parity" [] c.lvl = 10 -> "raid10"
                 [] c.lvl = 1 -> "mirror" [] c.lvl = LINEAR -> "linear"

Enumerated == CASE Family = "raid0" -> EnumRaid0
                [] Family = "parity" -> EnumParity
                [] Family = "raid10" -> EnumRaid10
                [] Family = "linear" -> EnumLinear \cup EnumMirror
                [] Family = "degraded" -> EnumDegraded

Configs == Enumerated \cup {Scenarios[i] : i \in 1 .. Len(Scenarios)}

Huge(c) == c.probes # <<>>
Units(c) == VolChunks(c) * CU

\* the windows that are walked: whole volume, plus windows around every chunk
\* boundary for small volumes, plus the probed chunks of huge ones
Windows(c) ==
    IF Huge(c) THEN {<<c.probes[i] * CU, CU>> : i \in 1 .. Len(c.probes)}
    ELSE {<<0, Units(c)>>}
         \cup (IF Units(c) <= 10 /\ Family # "degraded"
               THEN {<<p, l>> \in (0 .. Units(c) - 1) \X (1 .. Units(c)) : p + l <= Units(c)} ELSE {})

-----------------------------------------------------------------------------
(* The reader as a state machine                                            *)

VARIABLES cfg, win, missing, phase, pos, rem, out
vars == <<cfg, win, missing, phase, pos, rem, out>>

Init ==
    /\ cfg \in Configs
    /\ win \in Windows(cfg)
    /\ missing = {}
    /\ phase = "assemble"
    /\ pos = win[1] /\ rem = win[2]
    /\ out = <<>>

\* fault action: a member is not supplied
Lose ==
    /\ Family = "degraded" /\ phase = "assemble" /\ ~Huge(cfg)
    /\ \E m \in Range0(cfg.n) \ missing :
          /\ missing' = missing \cup {m}
          /\ (missing # {} => m > Max(missing))
    /\ UNCHANGED <<cfg, win, phase, pos, rem, out>>

Open ==
    /\ phase = "assemble"
    /\ phase' = IF CannotOpen(cfg, missing) THEN "refused" ELSE "read"
    /\ UNCHANGED <<cfg, win, missing, pos, rem, out>>

\* one strip of the read loop: within a chunk, from one member
ReadStrip ==
    /\ phase = "read" /\ rem > 0
    /\ LET k == pos \div CU
           l == Min2(rem, CU - (pos % CU))
           p == Locate(cfg, k, missing)
       IN  out' = Append(out,
                    IF p.m \in missing THEN [m |-> -1, a |-> pos, l |-> l]      \* this strip fails
                    ELSE [m |-> p.m, a |-> p.r * CU + (pos % CU), l |-> l])
           /\ pos' = pos + l /\ rem' = rem - l
    /\ UNCHANGED <<cfg, win, missing, phase>>

Finish ==
    /\ phase = "read" /\ rem = 0
    /\ phase' = "done"
    /\ UNCHANGED <<cfg, win, missing, pos, rem, out>>

\* nothing but these states is an end
End == phase \in {"done", "refused"} /\ UNCHANGED vars
Next == Lose \/ Open \/ ReadStrip \/ Finish \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties                                                               *)

TypeOK == /\ phase \in {"assemble", "read", "done", "refused"}
          /\ rem >= 0 /\ pos + rem = win[1] + win[2]
          /\ missing \subseteq Range0(cfg.n)

RECURSIVE Flat(_, _)
Flat(o, i) == IF i > Len(o) THEN <<>>
              ELSE [j \in 1 .. o[i].l |-> IF o[i].m = -1 THEN [m |-> -1, a |-> 0]
                                          ELSE [m |-> o[i].m, a |-> o[i].a + j - 1]] \o Flat(o, i + 1)

\* every unit of the window is read once, in order, from a place that holds it
ReadsExact ==
    (phase = "done" /\ ~Huge(cfg)) =>
        LET d == Decl(cfg)
            f == Flat(out, 1)
        IN  /\ Len(f) = win[2]
            /\ \A u \in 1 .. win[2] :
                 LET v == win[1] + u - 1
                     k == v \div CU
                 IN  f[u].m # -1 =>
                        [m |-> f[u].m, r |-> f[u].a \div CU] \in d[k + 1] /\ f[u].a % CU = v % CU

\* a unit may only fail when the member that the reader uses is gone
FailsOnlyWhenGone ==
    (phase = "done" /\ ~Huge(cfg)) =>
        \A i \in 1 .. Len(out) : out[i].m = -1 =>
            /\ missing # {}
            /\ LET k == out[i].a \div CU IN \E p \in Decl(cfg)[k + 1] : p.m \in missing

FirstState == phase = "assemble" /\ missing = {} /\ win[1] = 0 /\ win[2] = Units(cfg) /\ ~Huge(cfg)

\* the layout is a layout: copies never collide, with each other or with parity
LayoutWellFormed ==
    FirstState =>
        LET d == Decl(cfg)
            par == ParityPlaces(cfg)
        IN  /\ Len(d) = VolChunks(cfg)
            /\ \A i \in 1 .. Len(d) : \A p \in d[i] :
                  p.m \in Range0(cfg.n) /\ p.r \in 0 .. (cfg.sz[p.m + 1] - 1) /\ p \notin par
            /\ Cardinality(UNION {d[i] : i \in 1 .. Len(d)}) =
                  Len(d) * (IF cfg.lvl = 10 THEN Near(cfg) * Far(cfg) ELSE IF cfg.lvl = 1 THEN cfg.n ELSE 1)

\* RAID0 and linear use every chunk of every member, parity levels every place
NothingWasted ==
    FirstState =>
        /\ cfg.lvl \in {0, LINEAR} => Len(Decl(cfg)) = SumSz(cfg, 0)
        /\ cfg.lvl \in {4, 5, 6} =>
              Len(Decl(cfg)) + Cardinality(ParityPlaces(cfg)) = cfg.n * MinSz(cfg)

\* every row rotates: over n consecutive rows a rotating layout puts parity on every member once
ParityRotates ==
    (FirstState /\ cfg.lvl = 5 /\ cfg.lay \in 0 .. 3) =>
        \A m \in Range0(cfg.n) : \E r \in Range0(cfg.n) : PPos(cfg, r) = m

FormulaIsLayout ==
    FirstState =>
        \A k \in 0 .. (VolChunks(cfg) - 1) : Locate(cfg, k, {}) \in Decl(cfg)[k + 1]

Refusals ==
    (phase = "refused") => missing # {}

\* expected outcome of reading chunk k: data must come, must fail, or either
Outcome(c, k, gone) ==
    LET ps == Decl(c)[k + 1]
        alive == {p \in ps : p.m \notin gone}
    IN  IF alive = {} THEN "fail"
        ELSE IF Locate(c, k, gone).m \notin gone THEN "data"
        ELSE "either"

Places(c, k) == SetToSeq(IF Huge(c) THEN (IF c.lvl = 10 THEN CopiesRaid10(c, k)
                                          ELSE IF c.lvl = 1 THEN {[m |-> m, r |-> k] : m \in Range0(c.n)}
                                          ELSE {Locate(c, k, {})})
                         ELSE Decl(c)[k + 1])

EmitRec ==
    [id |-> cfg.id, lvl |-> cfg.lvl, lay |-> cfg.lay, n |-> cfg.n, sz |-> cfg.sz,
     chunks |-> VolChunks(cfg),
     missing |-> SetToSeq(missing),
     refused |-> (phase = "refused"),
     probes |-> cfg.probes,
     places |-> IF Huge(cfg) THEN [i \in 1 .. Len(cfg.probes) |-> Places(cfg, cfg.probes[i])]
                ELSE [i \in 1 .. VolChunks(cfg) |-> Places(cfg, i - 1)],
     outcome |-> IF Huge(cfg) \/ phase = "refused" THEN <<>>
                 ELSE [i \in 1 .. VolChunks(cfg) |-> Outcome(cfg, i - 1, missing)]]

Emit ==
    (\/ phase \in {"done", "refused"} /\ ~Huge(cfg) /\ win = <<0, Units(cfg)>>
     \/ phase = "done" /\ Huge(cfg) /\ win[1] = cfg.probes[1] * CU)
        => PrintT("@@" \o ToJson(EmitRec))

=============================================================================
