-------------------------------- MODULE Big --------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences of *)
(* NL limbs, base 65536.                                                    *)
EXTENDS Integers, Sequences

NL == 6
Base == 65536
BigOf(n) == [i \in 1 .. NL |-> IF i = 1 THEN n % Base ELSE IF i = 2 THEN n \div Base ELSE 0]
BZero == BigOf(0)

\* JSON arrays of fewer limbs are accepted
BigPad(s) == [i \in 1 .. NL |-> IF i <= Len(s) THEN s[i] ELSE 0]

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
    IF i > NL THEN <<>>
    ELSE LET t == a[i] + b[i] + c IN <<t % Base>> \o BAddFrom(a, b, i + 1, t \div Base)
BAdd(a, b) == BAddFrom(a, b, 1, 0)

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
    IF i > NL THEN <<>>
    ELSE LET t == a[i] - b[i] - c
         IN  <<IF t < 0 THEN t + Base ELSE t>> \o BSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
\* a - b for a >= b
BSub(a, b) == BSubFrom(a, b, 1, 0)

\* k < 2^15
RECURSIVE BMulFrom(_, _, _, _)
BMulFrom(a, k, i, c) ==
    IF i > NL THEN <<>>
    ELSE LET t == a[i] * k + c IN <<t % Base>> \o BMulFrom(a, k, i + 1, t \div Base)
BMul(a, k) == BMulFrom(a, k, 1, 0)

RECURSIVE BLtFrom(_, _, _)
BLtFrom(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLtFrom(a, b, i - 1)
BLt(a, b) == BLtFrom(a, b, NL)
BLe(a, b) == ~BLt(b, a)
=============================================================================
