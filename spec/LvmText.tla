------------------------------- MODULE LvmText -------------------------------
(***************************************************************************)
(* The text format of LVM2 metadata (lvm/physical.py, parse_metadata): a   *)
(* sequence of lines that open and close sections, assign values, spread   *)
(* arrays over several lines, or carry nothing but blanks and comments.    *)
(* Texts grow line by line; the reader keeps a stack of open sections.     *)
(* What it collects must be what the nesting of the whole text defines.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Family, MaxLines, Names, Keys

Scenarios == JsonDeserialize(IOEnv.VERIF_SCEN)

\* lines: [k |-> "open", n |-> name], [k |-> "close"], [k |-> "val", n |-> key], [k |-> "arr", n |-> key] (opens an array over
\* several lines), [k |-> "item"], [k |-> "end"], [k |-> "blank"]
Line(k, n) == [k |-> k, n |-> n]

VARIABLES id, todo, lines, stack, arr, sections, entries
vars == <<id, todo, lines, stack, arr, sections, entries>>

Init == /\ lines = <<>> /\ stack = <<>> /\ arr = "" /\ sections = {} /\ entries = {}
        /\ IF Family = "all" THEN id = "e" /\ todo = <<>>
           ELSE \E i \in 1 .. Len(Scenarios) : id = Scenarios[i].id /\ todo = Scenarios[i].lines

\* the reader, one line at a time
Here(k) == {e \in entries : e.path = stack /\ e.key = k}
Consume(l) ==
    /\ lines' = Append(lines, l)
    /\ CASE l.k = "open" -> /\ stack' = Append(stack, l.n) /\ sections' = sections \cup {Append(stack, l.n)}
                            /\ UNCHANGED <<arr, entries>>
         [] l.k = "close" -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<arr, sections, entries>>
         [] l.k = "val" -> entries' = (entries \ Here(l.n)) \cup {[path |-> stack, key |-> l.n, from |-> Len(lines) + 1, to |-> Len(lines) + 1]}
                           /\ UNCHANGED <<stack, arr, sections>>
         [] l.k = "arr" -> /\ arr' = l.n /\ UNCHANGED <<stack, sections>>
                           /\ entries' = (entries \ Here(l.n)) \cup {[path |-> stack, key |-> l.n, from |-> Len(lines) + 1, to |-> Len(lines) + 1]}
         [] l.k = "item" -> /\ UNCHANGED <<stack, arr, sections>>
                            /\ entries' = {IF e.path = stack /\ e.key = arr THEN [e EXCEPT !.to = Len(lines) + 1] ELSE e : e \in entries}
         [] l.k = "end" -> /\ arr' = "" /\ UNCHANGED <<stack, sections>>
                           /\ entries' = {IF e.path = stack /\ e.key = arr THEN [e EXCEPT !.to = Len(lines) + 1] ELSE e : e \in entries}
         [] l.k = "blank" -> UNCHANGED <<stack, arr, sections, entries>>

\* lines that may follow in a well-formed text without repeated names
Taken == {e.key : e \in {x \in entries : x.path = stack}} \cup {p[Len(p)] : p \in {s \in sections : Len(s) = Len(stack) + 1 /\ SubSeq(s, 1, Len(stack)) = stack}}
May(l) == IF arr # "" THEN l.k \in {"item", "end"}
          ELSE CASE l.k = "open" -> l.n \notin Taken
                 [] l.k = "close" -> stack # <<>>
                 [] l.k \in {"val", "arr"} -> l.n \notin Taken
                 [] l.k = "blank" -> TRUE
                 [] OTHER -> FALSE
Alphabet == {Line("open", n) : n \in Names} \cup {Line("val", n) : n \in Keys} \cup {Line("arr", n) : n \in Keys}
            \cup {Line(k, "") : k \in {"close", "item", "end", "blank"}}
Grow == Family = "all" /\ Len(lines) < MaxLines /\ \E l \in Alphabet : May(l) /\ Consume(l) /\ UNCHANGED <<id, todo>>
Feed == Family # "all" /\ todo # <<>> /\ May(Head(todo)) /\ Consume(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED id
\* nothing but these states is an end
End == (Family = "all" \/ todo = <<>>) /\ UNCHANGED vars
Next == Grow \/ Feed \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The nesting of the whole text: a section contains a line if it is opened *)
(* before it and not closed in between                                      *)
N(S, k) == Cardinality({i \in S : lines[i].k = k})
Encloses(j, i) == lines[j].k = "open" /\ j < i /\ \A m \in j + 1 .. i - 1 : N(j .. m, "open") > N(j .. m, "close")
RECURSIVE PathTo(_, _)
PathTo(i, j) == IF j >= i THEN <<>> ELSE (IF Encloses(j, i) THEN <<lines[j].n>> ELSE <<>>) \o PathTo(i, j + 1)
Path(i) == PathTo(i, 1)
\* an array takes the lines up to the next end, or so far
Ends(i) == {j \in i .. Len(lines) : lines[j].k = "end"}
ArrTo(i) == IF Ends(i) = {} THEN Len(lines) ELSE CHOOSE j \in Ends(i) : \A m \in Ends(i) : j <= m
Meaning == {[path |-> Path(i), key |-> lines[i].n, from |-> i, to |-> IF lines[i].k = "arr" THEN ArrTo(i) ELSE i] :
                i \in {x \in 1 .. Len(lines) : lines[x].k \in {"val", "arr"}}}
MeaningSections == {Append(Path(i), lines[i].n) : i \in {x \in 1 .. Len(lines) : lines[x].k = "open"}}

ReadsMeaning == entries = Meaning /\ sections = MeaningSections
Emit == (stack = <<>> /\ arr = "" /\ todo = <<>> /\ lines # <<>>) =>
            PrintT("@@" \o ToJson([id |-> id, lines |-> lines, entries |-> entries, sections |-> sections]))
=============================================================================
