------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Foreign, cut off and damaged input.  An image is a set of structures    *)
(* that a reader visits by following links, from structures at fixed       *)
(* places.  A scenario describes one image:                                *)
(*   id, fmt, max (number of faults)                                       *)
(*   parts  the structures, in the order of their place; every one has     *)
(*      p      number of the structure that links to it (0: fixed place)   *)
(*      end    it is found relative to the end of the device               *)
(*      sig    it has a signature                                          *)
(*      ptr    the link to it is stored on the device                      *)
(*      need   the reader needs it (FALSE: contents of a volume)           *)
(*      loops  structures the link can be redirected to                    *)
(*      dup    there can be a second link to it                            *)
(* All combinations of up to max faults are applied:                       *)
(*   sig i     the signature of i is damaged                               *)
(*   cut i w   the device ends right before (w = 0) or inside (w = 1) i    *)
(*   out i     the link to i points beyond the end of the device           *)
(*   loop i j  the link to i leads back to j                               *)
(*   dup i     there is a second link to i                                 *)
(* The reader accepts an image exactly if no structure it needs is         *)
(* affected, and always finishes.                                          *)
(* Family "marks": signatures are accepted exactly.  A scenario is one     *)
(* signature of an image: id, fmt, part, value (its bytes), valid (other   *)
(* signatures of the format) and kind:                                     *)
(*   sig   the image is accepted with this value only                      *)
(*   oem   field of a boot sector that does not contain the name of a      *)
(*         filesystem; value is such a name                                *)
(*   text  the image is accepted unless it has this value                  *)
(* All values that differ in one byte, have two neighbours swapped, are    *)
(* reversed or end early are tried.                                        *)
(* Family "foreign": every reader on images of every other format, and on  *)
(* devices without any format.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Family

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
Formats == {"mbr", "gpt", "apm", "bsd32", "bsd64", "md", "ddf", "vinum", "lvm", "thin", "vss"}
Blanks == {"empty", "byte", "sector", "zeros", "ones", "noise"}
Readers == {"disk", "md", "ddf", "vinum", "lvm", "thin", "vss"}
ReaderOf(f) == IF f \in {"mbr", "gpt", "apm", "bsd32", "bsd64"} THEN "disk" ELSE f

Fault(k, i, j) == [k |-> k, i |-> i, j |-> j]
Set(seq) == {seq[x] : x \in 1 .. Len(seq)}
Faults(ps) == UNION {
    {Fault("sig", i, 0) : i \in {x \in DOMAIN ps : ps[x].sig}},
    {Fault("cut", i, w) : i \in DOMAIN ps, w \in {0, 1}},
    {Fault("out", i, 0) : i \in {x \in DOMAIN ps : ps[x].ptr}},
    {Fault("dup", i, 0) : i \in {x \in DOMAIN ps : ps[x].dup}},
    UNION {{Fault("loop", i, j) : j \in Set(ps[i].loops)} : i \in DOMAIN ps}}
\* the link to a structure has one value
Consistent(fs) == \A f \in fs, g \in fs : f # g /\ f.i = g.i => {f.k, g.k} \notin {{"out", "loop"}, {"loop"}, {"dup", "loop"}, {"dup", "out"}, {"cut"}}
\* up to max faults, or all second links at once
Choose(ps, max, fs) == LET F == Faults(ps) IN
    \/ fs = {}
    \/ max >= 1 /\ \E f \in F : fs = {f}
    \/ fs = {f \in F : f.k = "dup"} /\ Cardinality(fs) > max
    \/ max >= 2 /\ \E f \in F, g \in F : f # g /\ Consistent({f, g}) /\ fs = {f, g}
    \/ max >= 3 /\ \E f \in F, g \in F, h \in F : Cardinality({f, g, h}) = 3 /\ Consistent({f, g, h}) /\ fs = {f, g, h}

-----------------------------------------------------------------------------
(* Values that are almost a signature                                        *)
Bit(b, n) == (b \div (2 ^ n)) % 2
Flip(b, n) == IF Bit(b, n) = 1 THEN b - 2 ^ n ELSE b + 2 ^ n
NearBytes(b) == {Flip(b, n) : n \in 0 .. 7} \cup {0, 32, 255, (b + 1) % 256, (b + 255) % 256}
Near(v) == {v} \cup UNION {{[v EXCEPT ![i] = b] : b \in NearBytes(v[i])} : i \in DOMAIN v}
               \cup {[v EXCEPT ![i] = v[i + 1], ![i + 1] = v[i]] : i \in 1 .. Len(v) - 1}
               \cup {Reverse(v)}
               \cup {[k \in DOMAIN v |-> IF k < i THEN v[k] ELSE 0] : i \in DOMAIN v}
\* MSDOS, MSWIN, NTFS, FAT, EXFAT, -FVE-FS-, SYSLINUX
Systems == {<<77, 83, 68, 79, 83>>, <<77, 83, 87, 73, 78>>, <<78, 84, 70, 83>>, <<70, 65, 84>>, <<45, 70, 86, 69, 45, 70, 83, 45>>, <<83, 89, 83, 76, 73, 78, 85, 88>>}
Within(w, v) == \E i \in 0 .. Len(v) - Len(w) : SubSeq(v, i + 1, i + Len(w)) = w
Fits(m, v) == CASE m.kind = "sig" -> v = m.value
                [] m.kind = "oem" -> \A w \in Systems : ~Within(w, v)
                [] m.kind = "text" -> v # m.value

VARIABLES id, fmt, reader, parts, faults, todo, seen, steps, verdict, why
vars == <<id, fmt, reader, parts, faults, todo, seen, steps, verdict, why>>

Kids(i) == SelectSeq([x \in 1 .. Len(parts) |-> x], LAMBDA x : parts[x].p = i /\ parts[x].need)
Has(k, i) == \E f \in faults : f.k = k /\ f.i = i
Lost(i) == \E f \in faults : f.k = "cut" /\ (parts[i].end \/ f.i <= i)
\* where the link to i leads: 0 is beyond the end
Goal(i) == IF Has("out", i) THEN 0 ELSE IF \E f \in faults : f.k = "loop" /\ f.i = i THEN (CHOOSE f \in faults : f.k = "loop" /\ f.i = i).j ELSE i
Links(i) == FlattenSeq([x \in 1 .. Len(Kids(i)) |-> IF Has("dup", Kids(i)[x]) THEN <<Goal(Kids(i)[x]), Goal(Kids(i)[x])>> ELSE <<Goal(Kids(i)[x])>>])

Init == /\ seen = {} /\ steps = 0 /\ verdict = "run" /\ why = ""
        /\ IF Family = "foreign"
           THEN /\ fmt \in Formats \cup Blanks /\ reader \in Readers /\ id = "x" /\ parts = <<>> /\ faults = {} /\ todo = <<>>
           ELSE IF Family = "marks"
           THEN \E s \in 1 .. Len(Scenarios) : LET m == Scenarios[s] IN
                   /\ id = m.id /\ fmt = m.fmt /\ reader = ReaderOf(m.fmt) /\ parts = <<m>> /\ todo = <<>>
                   /\ \E v \in Near(m.value) : v \notin Set(m.valid) /\ faults = {v}
           ELSE \E s \in 1 .. Len(Scenarios) :
                   /\ id = Scenarios[s].id /\ fmt = Scenarios[s].fmt /\ reader = ReaderOf(Scenarios[s].fmt) /\ parts = Scenarios[s].parts
                   /\ Choose(Scenarios[s].parts, Scenarios[s].max, faults)
                   /\ todo = Links(0)

-----------------------------------------------------------------------------
(* The reader                                                                *)
Stop(v, w) == verdict' = v /\ why' = w /\ UNCHANGED <<todo, seen>>
Step == /\ verdict = "run" /\ steps' = steps + 1
        /\ IF Family = "foreign" THEN (IF fmt \in Formats /\ reader = ReaderOf(fmt) THEN Stop("accept", "") ELSE Stop("reject", "foreign"))
           ELSE IF Family = "marks" THEN (IF \A v \in faults : Fits(parts[1], v) THEN Stop("accept", "") ELSE Stop("reject", "signature"))
           ELSE IF todo = <<>> THEN Stop("accept", "")
           ELSE LET i == Head(todo) IN
                IF i = 0 THEN Stop("reject", "beyond the end")
                ELSE IF i \in seen THEN Stop("reject", "visited before")
                ELSE IF Lost(i) THEN Stop("reject", "cut off")
                ELSE IF Has("sig", i) THEN Stop("reject", "signature")
                ELSE todo' = Links(i) \o Tail(todo) /\ seen' = seen \cup {i} /\ UNCHANGED <<verdict, why>>
        /\ UNCHANGED <<id, fmt, reader, parts, faults>>
\* nothing but these states is an end
End == verdict # "run" /\ UNCHANGED vars
Next == Step \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is expected of it                                                    *)
Needed == {i \in DOMAIN parts : parts[i].need}
Affected == \E f \in faults : IF f.k = "cut" THEN \E i \in Needed : parts[i].end \/ i >= f.i ELSE f.i \in Needed
Exact == verdict # "run" /\ Family = "faults" => (verdict = "reject") = Affected
Bounded == Family = "faults" => steps <= Cardinality(Needed) + 1
\* the reader looks at everything it needs before it accepts
Complete == verdict = "accept" /\ Family = "faults" => seen = Needed
\* a signature is one value, and the value itself is always among those tried
OneValue == verdict = "accept" /\ Family = "marks" /\ parts[1].kind = "sig" => faults = {parts[1].value}
Emit == verdict # "run" => PrintT("@@" \o ToJson([id |-> id, fmt |-> fmt, reader |-> reader, faults |-> SetToSeq(faults), part |-> IF Family = "marks" THEN parts[1].part ELSE 0, spot |-> IF Family = "marks" THEN parts[1].spot ELSE 0, verdict |-> verdict, why |-> why]))
=============================================================================
