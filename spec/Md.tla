--------------------------------- MODULE Md ---------------------------------
(***************************************************************************)
(* Linux MD metadata (md/md.py).                                           *)
(* Family "locate": where the superblock of each metadata version is on a  *)
(* device of a given number of sectors, and that probing finds it.         *)
(* Family "assemble": member devices of several sets arrive in some order; *)
(* they are grouped per set, the newest superblock describes the set, and  *)
(* every role is served by the newest member that has it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family, MaxSectors, MaxMembers

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

-----------------------------------------------------------------------------
(* Locations, in sectors                                                    *)
RoundDown(x, m) == (x \div m) * m
Place(ver, size) == CASE ver = "0.90" -> RoundDown(size, 128) - 128
                      [] ver = "1.0" -> RoundDown(size - 16, 8)
                      [] ver = "1.1" -> 0
                      [] ver = "1.2" -> 8
Versions == {"0.90", "1.0", "1.1", "1.2"}
\* sectors a superblock occupies at most
Span(ver) == IF ver = "0.90" THEN 8 ELSE 2
Fits(ver, size) == Place(ver, size) >= 0 /\ Place(ver, size) + Span(ver) <= size

LocateConfigs == {[ver |-> v, size |-> s] : v \in Versions \cup {"none"}, s \in 0 .. MaxSectors}
Probes(size) == <<Place("0.90", size), Place("1.0", size), 0, 8>>

\* member roles of an assembly
Spare == -1
Faulty == -2
Journal == -3

Members(n) == 1 .. n
Perms(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}

\* [set, role, ev, rec]; sets have "need": the number of roles; "rec": the member is still being recovered for its role
RoleKinds == {Spare, Faulty, Journal, 0, 1}
SmallSet(k, n) == {m \in [1 .. n -> [set : {k}, role : RoleKinds, ev : {5, 6}, rec : BOOLEAN]] :
                    /\ \A i \in 1 .. n : m[i].rec => m[i].role >= 0
                    /\ \A r \in {0, 1} : \E i \in 1 .. n : m[i].role = r /\ ~m[i].rec
                    \* two members claim the same role only with different event counts, or if one replaces the other
                    /\ \A i, j \in 1 .. n : i # j /\ m[i].role >= 0 /\ m[i].role = m[j].role => m[i].ev # m[j].ev \/ m[i].rec # m[j].rec}
AssembleConfigs ==
    {[id |-> "e", need |-> <<2>>, members |-> m, order |-> p] :
        m \in UNION {SmallSet(1, n) : n \in 2 .. 3}, p \in {<<1, 2, 3>>}}
    \cup UNION {{[id |-> "e", need |-> <<2, 2>>,
          members |-> <<[set |-> 1, role |-> 0, ev |-> e[1], rec |-> FALSE], [set |-> 1, role |-> 1, ev |-> e[2], rec |-> FALSE],
                        [set |-> 2, role |-> 0, ev |-> e[3], rec |-> FALSE], [set |-> 2, role |-> 1, ev |-> e[4], rec |-> FALSE]>>, order |-> p] :
        e \in [1 .. 4 -> {5, 6}], p \in Perms(4)}}
FixOrder(c) == [c EXCEPT !.order = SelectSeq(@, LAMBDA i : i <= Len(c.members))]
Reorder(c) == {[c EXCEPT !.order = [i \in 1 .. Len(c.members) |-> p[i]]] : p \in Perms(Len(c.members))}
Small == UNION {Reorder(c) : c \in {x \in AssembleConfigs : Len(x.need) = 1}}
FromScenario(x) == [id |-> x.id, need |-> x.need, members |-> x.members, order |-> x.order]

Configs ==
    IF Family = "locate" THEN {c \in LocateConfigs : c.ver = "none" \/ Fits(c.ver, c.size)}
    ELSE Small \cup {c \in AssembleConfigs : Len(c.need) = 2} \cup {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)}

-----------------------------------------------------------------------------
VARIABLES cfg, n, groups, result, phase
vars == <<cfg, n, groups, result, phase>>

Init == cfg \in Configs /\ n = 1 /\ groups = <<>> /\ result = <<>> /\ phase = "start"

\* locate: probe the candidate sectors in order
HasMagic(s) == cfg.ver # "none" /\ s >= 0 /\ s = Place(cfg.ver, cfg.size)
Probe == /\ Family = "locate" /\ phase = "start"
         /\ IF n > 4 THEN phase' = "absent" /\ UNCHANGED <<n, result>>
            ELSE IF HasMagic(Probes(cfg.size)[n]) THEN phase' = "found" /\ result' = <<Probes(cfg.size)[n]>> /\ UNCHANGED n
            ELSE n' = n + 1 /\ UNCHANGED <<phase, result>>
         /\ UNCHANGED <<cfg, groups>>

\* assemble: take the next device and put it with its set
GroupIdx(s) == {g \in 1 .. Len(groups) : groups[g].set = s}
Take == /\ Family = "assemble" /\ phase = "start" /\ n <= Len(cfg.order)
        /\ LET d == cfg.order[n]
               s == cfg.members[d].set
           IN  groups' = IF GroupIdx(s) = {} THEN Append(groups, [set |-> s, devs |-> <<d>>])
                         ELSE [groups EXCEPT ![CHOOSE g \in GroupIdx(s) : TRUE].devs = Append(@, d)]
        /\ n' = n + 1 /\ UNCHANGED <<cfg, result, phase>>

Ev(d) == cfg.members[d].ev
\* the role whose data the member has
Role(d) == IF cfg.members[d].rec THEN Spare ELSE cfg.members[d].role
\* scan of one group: keep the newest per role and the newest of all
RECURSIVE Scan(_, _, _, _)
Scan(devs, i, chosen, ref) ==
    IF i > Len(devs) THEN [chosen |-> chosen, ref |-> ref]
    ELSE LET d == devs[i]
             r == Role(d)
             c2 == IF r < 0 THEN chosen
                   ELSE IF chosen[r] = 0 \/ Ev(chosen[r]) < Ev(d) THEN [chosen EXCEPT ![r] = d] ELSE chosen
         IN  Scan(devs, i + 1, c2, IF Ev(ref) < Ev(d) THEN d ELSE ref)
Build == /\ Family = "assemble" /\ phase = "start" /\ n > Len(cfg.order)
         /\ result' = [g \in 1 .. Len(groups) |->
                 LET need == cfg.need[groups[g].set]
                     r == Scan(groups[g].devs, 1, [k \in 0 .. need - 1 |-> 0], groups[g].devs[1])
                 IN  [set |-> groups[g].set, chosen |-> [k \in 1 .. need |-> r.chosen[k - 1]], ref |-> r.ref]]
         /\ phase' = "built" /\ UNCHANGED <<cfg, n, groups>>

\* nothing but these states is an end
End == phase # "start" /\ UNCHANGED vars
Next == Probe \/ Take \/ Build \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
LocateExact ==
    /\ phase = "found" => result[1] = Place(cfg.ver, cfg.size)
    /\ phase = "absent" => cfg.ver = "none"

DevsOf(s) == {d \in 1 .. Len(cfg.members) : cfg.members[d].set = s}
Newest(s) == {d \in DevsOf(s) : \A e \in DevsOf(s) : Ev(e) <= Ev(d)}
HaveRole(s, r) == {d \in DevsOf(s) : Role(d) = r}
\* the result does not depend on the order of arrival
OrderIndependent ==
    phase = "built" =>
        /\ {result[g].set : g \in 1 .. Len(result)} = {cfg.members[d].set : d \in 1 .. Len(cfg.members)}
        /\ \A g \in 1 .. Len(result) :
            LET s == result[g].set
            IN  /\ result[g].ref \in Newest(s)
                /\ \A k \in 1 .. cfg.need[s] :
                    LET h == HaveRole(s, k - 1)
                    IN  IF h = {} THEN result[g].chosen[k] = 0
                        ELSE result[g].chosen[k] \in {d \in h : \A e \in h : Ev(e) <= Ev(d)}
NoRoleNoData == phase = "built" => \A g \in 1 .. Len(result) : \A k \in 1 .. Len(result[g].chosen) :
                    result[g].chosen[k] # 0 => Role(result[g].chosen[k]) = k - 1

\* members that may serve a mirror: the newest among the chosen
Sources(r) == LET c == {r.chosen[k] : k \in 1 .. Len(r.chosen)} \ {0} IN {d \in c : \A e \in c : Ev(e) <= Ev(d)}

Emit ==
    /\ (Family = "locate" /\ phase \in {"found", "absent"}) =>
         PrintT("@@" \o ToJson([ver |-> cfg.ver, size |-> cfg.size, found |-> phase = "found",
                                at |-> IF phase = "found" THEN result[1] ELSE 0]))
    /\ phase = "built" =>
         PrintT("@@" \o ToJson([id |-> cfg.id, need |-> cfg.need, members |-> cfg.members, order |-> cfg.order,
             sets |-> [g \in 1 .. Len(result) |->
                 [set |-> result[g].set, chosen |-> result[g].chosen, newest |-> Newest(result[g].set),
                  sources |-> Sources(result[g]), devs |-> DevsOf(result[g].set)]]]))
=============================================================================
