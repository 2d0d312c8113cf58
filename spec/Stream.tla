------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What every handle returned by an open() must behave like: a read-only   *)
(* random access file of Len units.  H handles are used in any             *)
(* interleaving; all histories of K operations are explored, and each is   *)
(* replayed (scaled to bytes) on the real streams.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS H, Len_, K

Ops == {[o |-> "set", a |-> p] : p \in {0, 1, 3, 7, Len_ - 1, Len_, Len_ + 2}}
       \cup {[o |-> "cur", a |-> d] : d \in {-1, 2}}
       \cup {[o |-> "end", a |-> d] : d \in {-4, 0}}
       \cup {[o |-> "below", a |-> 5]}          \* somebody else moves the handles the volume reads from
       \cup {[o |-> "read", a |-> n] : n \in {-1, 0, 1, 2, 5, Len_ + 3}}

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x

VARIABLES pos, hist
vars == <<pos, hist>>
Init == pos = [h \in 1 .. H |-> 0] /\ hist = <<>>

Enabled(h, op) == /\ op.o = "cur" => pos[h] + op.a >= 0
                  /\ op.o = "below" => h = 1
\* the number of units a read returns
Got(h, op) == LET left == Max(0, Len_ - pos[h]) IN IF op.a = -1 THEN left ELSE Min(op.a, left)
NewPos(h, op) == CASE op.o = "set" -> op.a
                   [] op.o = "cur" -> pos[h] + op.a
                   [] op.o = "end" -> Len_ + op.a
                   [] op.o = "below" -> pos[h]
                   [] op.o = "read" -> pos[h] + Got(h, op)

Do(h, op) == /\ Len(hist) < K
             /\ Enabled(h, op)
             /\ pos' = [pos EXCEPT ![h] = NewPos(h, op)]
             /\ hist' = Append(hist, [h |-> h, o |-> op.o, a |-> op.a, at |-> pos[h],
                                      n |-> IF op.o = "read" THEN Got(h, op) ELSE 0, p |-> NewPos(h, op)])
\* nothing but these states is an end
End == Len(hist) = K /\ UNCHANGED vars
Next == (\E h \in 1 .. H, op \in Ops : Do(h, op)) \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A h \in 1 .. H : pos[h] >= 0
\* reads stay inside the volume, and a read that returns nothing is at the end or asked for nothing
Reads == \A i \in 1 .. Len(hist) : hist[i].o = "read" =>
            /\ hist[i].n > 0 => hist[i].at + hist[i].n <= Len_
            /\ hist[i].n = 0 => hist[i].a = 0 \/ hist[i].at >= Len_
            /\ hist[i].p = hist[i].at + hist[i].n
\* a handle is moved by its own operations only
Isolated == \A h \in 1 .. H :
    LET mine == {i \in 1 .. Len(hist) : hist[i].h = h}
    IN  pos[h] = IF mine = {} THEN 0 ELSE hist[CHOOSE i \in mine : \A j \in mine : j <= i].p

Emit == Len(hist) = K => PrintT("@@" \o ToJson(hist))
=============================================================================
