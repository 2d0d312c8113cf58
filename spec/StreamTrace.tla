----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Validates operation histories recorded from real streams.  A trace is   *)
(* [len: length of each handle's volume, ops: recorded steps].  A step is  *)
(* [h, o, a, r, n, src, p]: handle, operation, argument, returned value of *)
(* a seek, number of bytes returned, the position in the reference content *)
(* at which exactly these bytes are found (-1: nowhere near), and tell()   *)
(* afterwards.  "below" is a move of the handles the volume reads from by  *)
(* somebody else.  Every trace is decided: accepted, or rejected with the     *)
(* number of the first step the file semantics does not allow and why.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VERIF_SCEN)

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x

VARIABLES t, i, pos, verdict
vars == <<t, i, pos, verdict>>

Init == \E k \in 1 .. Len(Traces) :
          t = k /\ i = 1 /\ pos = [h \in 1 .. Len(Traces[k].len) |-> 0] /\ verdict = "run"

Tr == Traces[t]
S == Tr.ops[i]
L == Tr.len[S.h]
P == pos[S.h]
Got == LET left == Max(0, L - P) IN IF S.a = -1 THEN left ELSE Min(S.a, left)
Target == CASE S.o = "set" -> S.a [] S.o = "cur" -> P + S.a [] S.o = "end" -> L + S.a [] OTHER -> P + Got

Clause ==
    CASE S.o \in {"set", "cur", "end"} /\ S.r # Target -> "seek returns the new position"
      [] S.o \in {"set", "cur", "end"} /\ S.p # Target -> "tell after seek"
      [] S.o = "read" /\ S.n # Got -> "number of bytes returned"
      [] S.o = "read" /\ S.n > 0 /\ S.src # P -> "bytes returned are those at the position"
      [] S.o = "read" /\ S.p # Target -> "position after read"
      [] S.o = "tell" /\ S.p # P -> "tell"
      [] S.o = "below" /\ S.p # P -> "position after others moved the handles below"
      [] OTHER -> "ok"

Step == /\ verdict = "run" /\ i <= Len(Tr.ops) /\ Clause = "ok"
        /\ pos' = [pos EXCEPT ![S.h] = IF S.o \in {"tell", "below"} THEN P ELSE Target]
        /\ i' = i + 1 /\ UNCHANGED <<t, verdict>>
Reject == /\ verdict = "run" /\ i <= Len(Tr.ops) /\ Clause # "ok" /\ verdict' = Clause /\ UNCHANGED <<t, i, pos>>
Accept == /\ verdict = "run" /\ i > Len(Tr.ops) /\ verdict' = "ok" /\ UNCHANGED <<t, i, pos>>
\* nothing but these states is an end
End == verdict # "run" /\ UNCHANGED vars
Next == Step \/ Reject \/ Accept \/ End
Spec == Init /\ [][Next]_vars

Decided == verdict # "run" => (verdict = "ok" <=> i > Len(Tr.ops))
Emit == verdict # "run" => PrintT("@@" \o ToJson([t |-> t, i |-> i, verdict |-> verdict]))
=============================================================================
