-------------------------------- MODULE Vinum --------------------------------
(***************************************************************************)
(* Assembly of Vinum volumes (vinum/vinum.py).  Drives arrive in some      *)
(* order; every drive carries a copy of one version of the configuration   *)
(* (volumes, plexes, subdisks).  The reader merges them, keeping for every *)
(* object its newest description, and derives the volumes that can be read.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Family

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

\* objects: kind, name, parent (volume of a plex, plex of a subdisk), state, organisation, drive, position in the plex
Vol(n, st) == [k |-> "v", n |-> n, par |-> 0, st |-> st, org |-> "", drv |-> 0, po |-> 0]
Plex(n, par, st, org) == [k |-> "p", n |-> n, par |-> par, st |-> st, org |-> org, drv |-> 0, po |-> 0]
Sd(n, par, st, drv, po) == [k |-> "s", n |-> n, par |-> par, st |-> st, org |-> "", drv |-> drv, po |-> po]

PlexStates == {"up", "down", "degraded", "initializing", "none"}
SdStates == {"up", "stale", "initializing", "degraded", "growable", "none"}
Orgs == {"concat", "striped", "raid5", "?", "none"}
Seqs(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}

\* one version on two drives; every state and organisation
OneVersion ==
    {[id |-> "e", vers |-> <<[t |-> 1, objs |-> <<Vol(1, vs), Plex(1, p, ps, org), Sd(1, 1, s1, 1, 0), Sd(2, 1, s2, 2, 1)>>]>>,
      drives |-> <<[act |-> a[1], ver |-> 1], [act |-> a[2], ver |-> 1]>>, order |-> o] :
        vs \in {"up", "down"}, p \in {1, 2}, ps \in PlexStates, org \in Orgs, s1 \in SdStates, s2 \in SdStates,
        a \in [1 .. 2 -> BOOLEAN], o \in {<<1>>, <<1, 2>>, <<2, 1>>}}
\* two versions that differ in some objects, on drives that have the one or the other
Base == <<Vol(1, "up"), Plex(1, 1, "up", "striped"), Sd(1, 1, "up", 1, 0), Sd(2, 1, "up", 2, 1)>>
Later == {<<Vol(1, "up"), Plex(1, 1, "up", "striped"), Sd(1, 1, "up", 1, 1), Sd(2, 1, "up", 2, 0)>>,
          <<Vol(1, "up"), Plex(1, 1, "down", "striped"), Sd(1, 1, "up", 1, 0), Sd(2, 1, "up", 2, 1)>>,
          <<Vol(1, "up"), Plex(1, 1, "up", "concat"), Sd(1, 1, "up", 2, 0), Sd(2, 1, "up", 1, 1)>>,
          <<Vol(1, "up"), Plex(1, 1, "up", "striped"), Sd(1, 1, "stale", 1, 0), Sd(2, 1, "up", 2, 1)>>,
          <<Vol(1, "up"), Plex(1, 1, "up", "striped"), Sd(1, 1, "up", 1, 0), Sd(2, 1, "up", 2, 1), Sd(3, 1, "up", 3, 2)>>,
          <<Vol(1, "up"), Vol(2, "up"), Plex(1, 2, "up", "striped"), Sd(1, 1, "up", 1, 0), Sd(2, 1, "up", 2, 1)>>,
          <<Vol(1, "up"), Plex(1, 1, "up", "striped"), Plex(2, 1, "up", "concat"), Sd(1, 1, "up", 1, 0), Sd(2, 2, "up", 2, 0)>>,
          <<Vol(2, "up"), Plex(2, 2, "up", "concat"), Sd(3, 2, "up", 3, 0)>>,
          <<>>}
TwoVersions ==
    UNION {{[id |-> "e", vers |-> <<[t |-> tt[1], objs |-> Base], [t |-> tt[2], objs |-> l]>>,
      drives |-> [d \in 1 .. 3 |-> [act |-> a[d], ver |-> w[d]]], order |-> o] :
        tt \in {<<1, 2>>, <<2, 1>>}, l \in Later, w \in [1 .. 3 -> {1, 2}], a \in {x \in [1 .. 3 -> BOOLEAN] : x[1]},
        o \in Seqs(3) \cup {<<1, 2>>, <<2, 1>>}}}
\* mirrors of two plexes
Mirrors ==
    {[id |-> "e", vers |-> <<[t |-> 1, objs |-> <<Vol(1, "up"), Plex(2, 1, ps[1], og[1]), Plex(1, 1, ps[2], og[2]),
                                                   Sd(1, 1, ss[1], 1, 0), Sd(2, 2, ss[2], 2, 1), Sd(3, 2, ss[3], 3, 0)>>]>>,
      drives |-> [d \in 1 .. 3 |-> [act |-> TRUE, ver |-> 1]], order |-> o] :
        ps \in [1 .. 2 -> {"up", "down"}], og \in [1 .. 2 -> {"concat", "striped"}], ss \in [1 .. 3 -> {"up", "stale"}],
        o \in Seqs(3) \cup {<<2, 3>>, <<1, 3>>, <<1>>, <<3>>}}
FromScenario(x) == [id |-> x.id, vers |-> x.vers, drives |-> x.drives, order |-> x.order]

Configs == CASE Family = "one" -> OneVersion
             [] Family = "two" -> TwoVersions
             [] Family = "mirror" -> Mirrors
             [] Family = "random" -> {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)}

-----------------------------------------------------------------------------
VARIABLES cfg, n, merged, result, phase
vars == <<cfg, n, merged, result, phase>>

Init == cfg \in Configs /\ n = 1 /\ merged = {} /\ result = <<>> /\ phase = "start"

Time(v) == cfg.vers[v].t
Drive(d) == cfg.drives[d]
Same(e, o) == e.o.k = o.k /\ e.o.n = o.n

\* merge the objects of one configuration into what is known
RECURSIVE Merge(_, _, _)
Merge(m, objs, v) ==
    IF objs = <<>> THEN m
    ELSE LET o == Head(objs)
             old == {e \in m : Same(e, o)}
             m2 == IF old = {} THEN m \cup {[o |-> o, v |-> v]}
                   ELSE IF \E e \in old : Time(v) > Time(e.v) THEN (m \ old) \cup {[o |-> o, v |-> v]} ELSE m
         IN  Merge(m2, Tail(objs), v)
Take == /\ phase = "start" /\ n <= Len(cfg.order)
        /\ LET d == Drive(cfg.order[n])
           IN  merged' = IF d.act THEN Merge(merged, cfg.vers[d.ver].objs, d.ver) ELSE merged
        /\ n' = n + 1 /\ UNCHANGED <<cfg, result, phase>>

Entries(k) == {e \in merged : e.o.k = k}
Known(k) == {e.o.n : e \in Entries(k)}
PlexOk(e) == e.o.par \in Known("v") /\ e.o.st \in {"up", "initializing", "degraded", "growable", "none"}
             /\ e.o.org \in {"concat", "striped", "raid5"}
SdOk(e) == /\ e.o.st \in {"up", "growable", "none"}
           /\ e.o.drv \in {cfg.order[i] : i \in {j \in 1 .. Len(cfg.order) : Drive(cfg.order[j]).act}}
ByPos(S) == SetToSortSeq(S, LAMBDA a, b : a.o.po < b.o.po)
ByName(S) == SetToSortSeq(S, LAMBDA a, b : a.o.n < b.o.n)
SdsOf(p) == {e \in Entries("s") : e.o.par = p}
Describe(e) == LET sds == ByPos(SdsOf(e.o.n))
               IN  [plex |-> e.o.n, v |-> e.v, org |-> e.o.org,
                    sds |-> [i \in 1 .. Len(sds) |-> [sd |-> sds[i].o.n, v |-> sds[i].v, drv |-> sds[i].o.drv, ok |-> SdOk(sds[i])]]]
Readable(e) == \E s \in SdsOf(e.o.n) : SdOk(s)
Build == /\ phase = "start" /\ n > Len(cfg.order)
         /\ LET usable(vn) == {e \in Entries("p") : PlexOk(e) /\ e.o.par = vn}
                vols == {vn \in Known("v") : \E e \in usable(vn) : Readable(e)}
                seq == SetToSortSeq(vols, <)
            IN  result' = [i \in 1 .. Len(seq) |->
                              LET ps == ByName(usable(seq[i]))
                              IN  [vol |-> seq[i], plexes |-> [j \in 1 .. Len(ps) |-> Describe(ps[j])]]]
         /\ phase' = "built" /\ UNCHANGED <<cfg, n, merged>>

\* nothing but these states is an end
End == phase = "built" /\ UNCHANGED vars
Next == Take \/ Build \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the merge amounts to, regardless of the order of arrival            *)
Supplied == {d \in 1 .. Len(cfg.drives) : Drive(d).act /\ \E i \in 1 .. Len(cfg.order) : cfg.order[i] = d}
Seen == {Drive(d).ver : d \in Supplied}
ObjsOf(v) == {cfg.vers[v].objs[i] : i \in 1 .. Len(cfg.vers[v].objs)}
Current == UNION {{[o |-> o, v |-> v] : o \in {x \in ObjsOf(v) :
                       \A w \in Seen : (\E q \in ObjsOf(w) : q.k = x.k /\ q.n = x.n) => Time(w) <= Time(v)}} : v \in Seen}

\* every version has a time of its own, and names every object once
WellFormed == /\ \A v, w \in 1 .. Len(cfg.vers) : v # w => Time(v) # Time(w)
              /\ \A v \in 1 .. Len(cfg.vers) : \A i, j \in 1 .. Len(cfg.vers[v].objs) :
                    i # j => ~(cfg.vers[v].objs[i].k = cfg.vers[v].objs[j].k /\ cfg.vers[v].objs[i].n = cfg.vers[v].objs[j].n)
NewestWins == phase = "built" => merged = Current

\* a volume is listed iff a subdisk with data of it is reachable through usable objects
Reaches(vn) == \E p \in Current, s \in Current :
    /\ p.o.k = "p" /\ s.o.k = "s" /\ p.o.par = vn /\ s.o.par = p.o.n
    /\ p.o.st # "down" /\ p.o.st # "stale" /\ p.o.org \notin {"?", "none"}
    /\ s.o.st \notin {"stale", "down", "degraded", "initializing"} /\ s.o.drv \in Supplied
    /\ \E v \in Current : v.o.k = "v" /\ v.o.n = vn
Listed == phase = "built" =>
    LET names == {result[i].vol : i \in 1 .. Len(result)}
        all == {e.o.n : e \in {c \in Current : c.o.k = "v"}}
    IN  names = {vn \in all : Reaches(vn)} /\ Cardinality(names) = Len(result)
\* no subdisk serves two places, and only drives that are present serve data
NoSharing == phase = "built" =>
    \A i, i2 \in 1 .. Len(result) : \A j \in 1 .. Len(result[i].plexes), j2 \in 1 .. Len(result[i2].plexes) :
        \A k \in 1 .. Len(result[i].plexes[j].sds), k2 \in 1 .. Len(result[i2].plexes[j2].sds) :
            /\ result[i].plexes[j].sds[k].sd = result[i2].plexes[j2].sds[k2].sd => <<i, j, k>> = <<i2, j2, k2>>
            /\ result[i].plexes[j].sds[k].ok => result[i].plexes[j].sds[k].drv \in Supplied

Emit == phase = "built" =>
    PrintT("@@" \o ToJson([id |-> cfg.id, vers |-> cfg.vers, drives |-> cfg.drives, order |-> cfg.order, vols |-> result]))
=============================================================================
