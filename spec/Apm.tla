-------------------------------- MODULE Apm --------------------------------
(***************************************************************************)
(* Apple partition maps (disk/schemes/apm.py).  With a driver descriptor   *)
(* ("ER") in block 0 its block size bs determines where the map entries    *)
(* are and the unit of their addresses; a map may also start right away.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Big

CONSTANTS Enum

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

\* [id, er (has driver descriptor), bs, ss, entries: Seq([start, size])]
Unit(c) == IF c.er THEN c.bs ELSE c.ss
MapAt(c, i) == IF c.er THEN c.bs * i ELSE c.ss * (i - 1)
DeclPart(c, i) == [number |-> i, off |-> BMul(c.entries[i].start, Unit(c)), sz |-> BMul(c.entries[i].size, Unit(c))]

Enumerated == UNION {{[id |-> "e", er |-> er, bs |-> bs, ss |-> ss,
                entries |-> [i \in 1 .. n |-> [start |-> BigOf(i * 3 + n), size |-> BigOf(i)]]] :
                    er \in {TRUE}, bs \in {512, 1024, 2048, 4096}, ss \in {512, 2048}} : n \in 1 .. 6}

FromScenario(x) == [id |-> x.id, er |-> x.er, bs |-> x.bs, ss |-> x.ss,
    entries |-> [i \in 1 .. Len(x.entries) |-> [start |-> BigPad(x.entries[i].start), size |-> BigPad(x.entries[i].size)]]]
Configs == {FromScenario(Scenarios[i]) : i \in 1 .. Len(Scenarios)} \cup (IF Enum THEN Enumerated ELSE {})

VARIABLES cfg, pos, unit, i, parts, phase
vars == <<cfg, pos, unit, i, parts, phase>>

Init == cfg \in Configs /\ pos = 0 /\ unit = cfg.ss /\ i = 0 /\ parts = <<>> /\ phase = "probe"

\* block 0: a driver descriptor leads to the map, or it is the map
Probe == /\ phase = "probe"
         /\ IF cfg.er THEN pos' = cfg.bs /\ unit' = cfg.bs ELSE pos' = 0 /\ unit' = cfg.ss
         /\ i' = 1 /\ phase' = "map" /\ UNCHANGED <<cfg, parts>>
ReadEntry == /\ phase = "map" /\ i <= Len(cfg.entries)
             /\ parts' = Append(parts, [number |-> i, off |-> BMul(cfg.entries[i].start, unit),
                                        sz |-> BMul(cfg.entries[i].size, unit)])
             /\ pos' = pos + unit /\ i' = i + 1 /\ UNCHANGED <<cfg, unit, phase>>
Finish == phase = "map" /\ i > Len(cfg.entries) /\ phase' = "done" /\ UNCHANGED <<cfg, pos, unit, i, parts>>
\* nothing but these states is an end
End == phase = "done" /\ UNCHANGED vars
Next == Probe \/ ReadEntry \/ Finish \/ End
Spec == Init /\ [][Next]_vars

WalksMap == phase = "map" /\ i <= Len(cfg.entries) => pos = MapAt(cfg, i)
ListsExactly == phase = "done" => parts = [k \in 1 .. Len(cfg.entries) |-> DeclPart(cfg, k)]
Emit == phase = "done" => PrintT("@@" \o ToJson([id |-> cfg.id, er |-> cfg.er, bs |-> cfg.bs, ss |-> cfg.ss,
            at |-> [k \in 1 .. Len(cfg.entries) |-> MapAt(cfg, k)], entries |-> cfg.entries, parts |-> parts]))
=============================================================================
