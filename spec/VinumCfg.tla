------------------------------ MODULE VinumCfg ------------------------------
(***************************************************************************)
(* The Vinum on-disk configuration language (vinum/config.py).             *)
(* A text is a sequence of pieces: words, blanks, line ends, '#' and       *)
(* quotes; adjacent words form one token.  Lines are split into tokens and *)
(* every line declares a volume, a plex or a subdisk.  The first line that *)
(* is not well-formed ends the configuration.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family, MaxLen

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)
DataStart == 135680
None == "<none>"

-----------------------------------------------------------------------------
(* Sizes: optional minus, digits, and one unit character; anything else is  *)
(* ignored.  A size is num * 2^shift, negated if neg.                       *)
Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Num(_, _, _)
Num(s, i, acc) == IF i <= Len(s) /\ Ch(s, i) \in DOMAIN Digits THEN Num(s, i + 1, 10 * acc + Digits[Ch(s, i)]) ELSE [num |-> acc, at |-> i]
Shift(c) == CASE c \in {"b", "B", "s", "S"} -> 9 [] c \in {"k", "K"} -> 10 [] c \in {"m", "M"} -> 20 [] c \in {"g", "G"} -> 30 [] OTHER -> 0
Size(s) ==
    LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
        n == Num(s, IF neg THEN 2 ELSE 1, 0)
    IN  [neg |-> neg /\ n.num > 0, num |-> n.num, shift |-> IF n.at <= Len(s) /\ n.num > 0 THEN Shift(Ch(s, n.at)) ELSE 0]
Pow2(k) == CASE k = 0 -> 1 [] k = 9 -> 512 [] k = 10 -> 1024 [] k = 20 -> 1048576 [] k = 30 -> 1073741824
Below(z, m) == z.neg \/ z.num <= (m - 1) \div Pow2(z.shift)     \* num * 2^shift < m, without overflow
IsZero(z) == z.num = 0

-----------------------------------------------------------------------------
(* Objects; an attribute that is not given is None                          *)
Volume == [k |-> "volume", name |-> None, state |-> None]
Plex == [k |-> "plex", name |-> None, org |-> None, stripe |-> None, volume |-> None, state |-> None]
Sd == [k |-> "sd", name |-> None, drive |-> None, length |-> None, doff |-> None, plex |-> None, poff |-> None, state |-> None]
New(t) == CASE t = "volume" -> Volume [] t = "plex" -> Plex [] t = "sd" -> Sd
Types == {"volume", "plex", "sd"}

\* The attribute groups of the grammar.  Put returns the object with the attribute, or a record without k if invalid
Bad == [k |-> "bad"]
Attr(o, key, v) ==
    CASE o.k = "volume" /\ key = "state" -> [o EXCEPT !.state = v]
      [] o.k = "plex" /\ key = "name" -> [o EXCEPT !.name = v]
      [] o.k = "plex" /\ key = "org" -> [o EXCEPT !.org = v]
      [] o.k = "plex" /\ key \in {"vol", "volume"} -> [o EXCEPT !.volume = v]
      [] o.k = "plex" /\ key = "state" -> [o EXCEPT !.state = v]
      [] o.k = "sd" /\ key = "name" -> [o EXCEPT !.name = v]
      [] o.k = "sd" /\ key = "drive" -> [o EXCEPT !.drive = v]
      [] o.k = "sd" /\ key \in {"len", "length"} -> [o EXCEPT !.length = v]
      [] o.k = "sd" /\ key = "driveoffset" -> IF IsZero(Size(v)) \/ ~Below(Size(v), DataStart) THEN [o EXCEPT !.doff = v] ELSE Bad
      [] o.k = "sd" /\ key = "plex" -> [o EXCEPT !.plex = v]
      [] o.k = "sd" /\ key = "plexoffset" -> IF Size(v).neg THEN Bad ELSE [o EXCEPT !.poff = v]
      [] o.k = "sd" /\ key = "state" -> [o EXCEPT !.state = v]
      [] OTHER -> Bad
Keys(k) == CASE k = "volume" -> {"state"}
             [] k = "plex" -> {"name", "org", "vol", "volume", "state"}
             [] k = "sd" -> {"name", "drive", "len", "length", "driveoffset", "plex", "plexoffset", "state"}
             [] OTHER -> {}
Striped(v) == v \in {"striped", "raid5"}
Complete(o) == CASE o.k = "volume" -> o.name # None [] o.k = "sd" -> o.drive # None [] o.k = "plex" -> TRUE [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* The machine: one piece at a time.                                        *)
(*   tok    the token being collected, "" if none                           *)
(*   obj    the object of the line, Bad if there is none yet                *)
(*   key    the attribute waiting for a value, None if none                 *)
(*   mode   "line" reading, "comment" up to the end of the line,            *)
(*          "stop" the rest is ignored                                      *)
Blank == {" ", "\t"}
Eol == {"\n", "\\0"}
Quote == {"'", "\""}
Pieces == {"volume", "a", "state", "plex", " ", "#", "'", "\n"}
Texts == UNION {[1 .. l -> Pieces] : l \in 0 .. MaxLen}
PlexWords == {"name", "org", "vol", "state", "concat", "striped", "512", "0x", "b"}
SdWords == {"name", "drive", "len", "driveoffset", "plexoffset", "plex", "state", "0", "-3k", "265s"}
Words(w) == [i \in 1 .. 2 * Len(w) |-> IF i % 2 = 1 THEN " " ELSE w[i \div 2]]
Configs ==
    (CASE Family = "chars" -> {[id |-> "e", text |-> t] : t \in Texts}
       [] Family = "plex" -> {[id |-> "e", text |-> <<"plex">> \o Words(w) \o <<"\n", "volume", " ", "end">>] : w \in UNION {[1 .. l -> PlexWords] : l \in 0 .. MaxLen}}
       [] Family = "sd" -> {[id |-> "e", text |-> <<"sd">> \o Words(w) \o <<"\n", "volume", " ", "end">>] : w \in UNION {[1 .. l -> SdWords] : l \in 0 .. MaxLen}}
       [] OTHER -> {})
    \cup {[id |-> Scenarios[i].id, text |-> Scenarios[i].text] : i \in 1 .. Len(Scenarios)}

VARIABLES cfg, i, tok, obj, key, mode, objs, done
vars == <<cfg, i, tok, obj, key, mode, objs, done>>
Init == cfg \in Configs /\ i = 1 /\ tok = "" /\ obj = Bad /\ key = None /\ mode = "line" /\ objs = <<>> /\ done = FALSE

\* effect of a complete token t: the new <<obj, key, mode>>
Token(t) ==
    IF obj.k = "bad" THEN IF t \in Types THEN <<New(t), None, "line">> ELSE <<Bad, None, "stop">>
    ELSE IF key # None
         THEN IF key = "stripe" THEN IF Below(Size(t), 1) THEN <<Bad, None, "stop">> ELSE <<[obj EXCEPT !.stripe = t], None, "line">>
              ELSE LET o == Attr(obj, key, t)
                   IN  IF o.k = "bad" THEN <<Bad, None, "stop">>
                       ELSE <<o, IF key = "org" /\ Striped(t) THEN "stripe" ELSE None, "line">>
    ELSE IF t \in Keys(obj.k) THEN <<obj, t, "line">>
    ELSE IF obj.k = "volume" THEN <<[obj EXCEPT !.name = t], None, "line">>
    ELSE <<Bad, None, "stop">>
\* effect of the end of the line
EndLine(o, k, m) ==
    IF m = "stop" THEN [objs |-> objs, mode |-> "stop"]
    ELSE IF o.k = "bad" THEN [objs |-> objs, mode |-> "line"]
    ELSE IF k # None \/ ~Complete(o) THEN [objs |-> objs, mode |-> "stop"]
    ELSE [objs |-> Append(objs, o), mode |-> "line"]
AtEnd == i > Len(cfg.text)
Piece == cfg.text[i]
IsWord(p) == p \notin Blank \cup Eol
Step ==
    /\ ~done /\ mode # "stop"
    /\ IF AtEnd \/ Piece \in Eol
       THEN LET r == IF tok = "" THEN <<obj, key, mode>> ELSE Token(tok)
                e == EndLine(r[1], r[2], IF r[3] = "comment" THEN "line" ELSE r[3])
            IN  objs' = e.objs /\ mode' = e.mode /\ obj' = Bad /\ key' = None /\ tok' = ""
       ELSE IF mode = "comment" THEN UNCHANGED <<objs, mode, obj, key, tok>>
       ELSE IF Piece \in Blank
       THEN LET r == IF tok = "" THEN <<obj, key, mode>> ELSE Token(tok)
            IN  obj' = r[1] /\ key' = r[2] /\ mode' = r[3] /\ tok' = "" /\ UNCHANGED objs
       ELSE IF tok = "" /\ Piece = "#" THEN mode' = "comment" /\ UNCHANGED <<objs, obj, key, tok>>
       ELSE IF tok = "" /\ Piece \in Quote THEN mode' = "stop" /\ UNCHANGED <<objs, obj, key, tok>>
       ELSE tok' = tok \o Piece /\ UNCHANGED <<objs, mode, obj, key>>
    /\ i' = i + 1 /\ done' = AtEnd /\ UNCHANGED cfg
Stop == ~done /\ mode = "stop" /\ done' = TRUE /\ UNCHANGED <<cfg, i, tok, obj, key, mode, objs>>
\* nothing but these states is an end
End == done /\ UNCHANGED vars
Next == Step \/ Stop \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Declaratively.  Lines are the maximal runs without line ends, tokens the *)
(* maximal runs of words before a comment; a line is well-formed if its     *)
(* tokens can be segmented into the groups of the grammar.                  *)
T == cfg.text
LineStarts == {1} \cup {p + 1 : p \in {q \in 1 .. Len(T) : T[q] \in Eol}}
LineOf(s) == LET e == {p \in s .. Len(T) : T[p] \in Eol} IN SubSeq(T, s, IF e = {} THEN Len(T) ELSE Min(e) - 1)
TokenStarts(l) == {p \in 1 .. Len(l) : l[p] \notin Blank /\ (p = 1 \/ l[p - 1] \in Blank)}
Comment(l) == {p \in TokenStarts(l) : l[p] = "#"}
Starts(l) == {p \in TokenStarts(l) : \A c \in Comment(l) : p < c}
HasQuote(l) == \E p \in Starts(l) : l[p] \in Quote
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
TokenAt(l, p) == LET e == {q \in p .. Len(l) : l[q] \in Blank} IN Join(SubSeq(l, p, IF e = {} THEN Len(l) ELSE Min(e) - 1))
Tokens(l) == LET ss == SetToSortSeq(Starts(l), LAMBDA a, b : a < b) IN [n \in 1 .. Len(ss) |-> TokenAt(l, ss[n])]
\* group [1..] of the grammar for type k
Group(k, g) ==
    CASE k = "volume" -> (Len(g) = 1 /\ g[1] # "state") \/ (Len(g) = 2 /\ g[1] = "state")
      [] k = "plex" -> \/ Len(g) = 2 /\ g[1] \in {"name", "vol", "volume", "state"}
                       \/ Len(g) = 2 /\ g[1] = "org" /\ ~Striped(g[2])
                       \/ Len(g) = 3 /\ g[1] = "org" /\ Striped(g[2]) /\ ~Below(Size(g[3]), 1)
      [] k = "sd" -> Len(g) = 2 /\ \/ g[1] \in {"name", "drive", "plex", "state", "len", "length"}
                                   \/ g[1] = "driveoffset" /\ (IsZero(Size(g[2])) \/ ~Below(Size(g[2]), DataStart))
                                   \/ g[1] = "plexoffset" /\ ~Size(g[2]).neg
\* segmentations of ts[2 ..] as sets of group starts
Cut(ts, c, s) == LET nx == {x \in c : x > s} IN SubSeq(ts, s, IF nx = {} THEN Len(ts) ELSE Min(nx) - 1)
Segmentations(ts) == {c \in SUBSET (2 .. Len(ts)) : (Len(ts) > 1 => 2 \in c) /\ \A s \in c : Group(ts[1], Cut(ts, c, s))}
LastOf(ts, c, keys) == LET m == {s \in c : ts[s] \in keys /\ Len(Cut(ts, c, s)) > 1} IN IF m = {} THEN None ELSE ts[Max(m) + 1]
Declared(ts, c) ==
    CASE ts[1] = "volume" -> LET m == {s \in c : Len(Cut(ts, c, s)) = 1}
                             IN  [k |-> "volume", name |-> IF m = {} THEN None ELSE ts[Max(m)], state |-> LastOf(ts, c, {"state"})]
      [] ts[1] = "plex" -> LET m == {s \in c : Len(Cut(ts, c, s)) = 3}
                           IN  [k |-> "plex", name |-> LastOf(ts, c, {"name"}), org |-> LastOf(ts, c, {"org"}),
                                stripe |-> IF m = {} THEN None ELSE ts[Max(m) + 2], volume |-> LastOf(ts, c, {"vol", "volume"}), state |-> LastOf(ts, c, {"state"})]
      [] ts[1] = "sd" -> [k |-> "sd", name |-> LastOf(ts, c, {"name"}), drive |-> LastOf(ts, c, {"drive"}), length |-> LastOf(ts, c, {"len", "length"}),
                          doff |-> LastOf(ts, c, {"driveoffset"}), plex |-> LastOf(ts, c, {"plex"}), poff |-> LastOf(ts, c, {"plexoffset"}), state |-> LastOf(ts, c, {"state"})]
\* what one line contributes: <<ok, objects>>
LineMeaning(l) ==
    LET ts == Tokens(l)
    IN  IF HasQuote(l) THEN <<FALSE, <<>>>>
        ELSE IF Len(ts) = 0 THEN <<TRUE, <<>>>>
        ELSE IF ts[1] \notin Types \/ Segmentations(ts) = {} THEN <<FALSE, <<>>>>
        ELSE LET o == Declared(ts, CHOOSE c \in Segmentations(ts) : TRUE)
             IN  IF Complete(o) THEN <<TRUE, <<o>>>> ELSE <<FALSE, <<>>>>
LineSeq == SetToSortSeq(LineStarts, LAMBDA a, b : a < b)
RECURSIVE Meaning(_)
Meaning(n) == IF n > Len(LineSeq) THEN <<>>
              ELSE LET m == LineMeaning(LineOf(LineSeq[n])) IN IF m[1] THEN m[2] \o Meaning(n + 1) ELSE <<>>
\* (segmentations are enumerated, so long lines are left to the machine)
Short == \A n \in 1 .. Len(LineSeq) : Len(Tokens(LineOf(LineSeq[n]))) <= 8
ParsesExactly == done /\ Short => objs = Meaning(1)
Unambiguous == done /\ Short => \A n \in 1 .. Len(LineSeq) :
    LET ts == Tokens(LineOf(LineSeq[n])) IN Len(ts) > 0 /\ ts[1] \in Types => Cardinality(Segmentations(ts)) <= 1

Emit == done => PrintT("@@" \o ToJson([id |-> cfg.id, text |-> cfg.text, objs |->
    [n \in 1 .. Len(objs) |-> LET o == objs[n] IN
        CASE o.k = "volume" -> o
          [] o.k = "plex" -> [o EXCEPT !.stripe = IF @ = None THEN None ELSE Size(@)]
          [] o.k = "sd" -> [o EXCEPT !.length = IF @ = None THEN None ELSE Size(@), !.doff = IF @ = None THEN None ELSE Size(@),
                                     !.poff = IF @ = None THEN None ELSE Size(@)]]]))
=============================================================================
