---------------------------- MODULE ConfigText -----------------------------
(* Configuration files (P21): what their text means, and how two compare.

   A file is a sequence of lines.  A line is blank, a comment, or a pair (perhaps
   with a comment behind it); only the last pair of a key counts.  How the line is
   laid out (spaces, tabs, the comment) means nothing.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Values,   \* of the pairs
          Layouts,        \* ways to lay out a pair
          Silent,         \* lines which mean nothing
          MaxLen          \* of each file: <<n, m>>

Pairs == {[kind |-> "pair", key |-> k, value |-> v, layout |-> l] : k \in Keys, v \in Values, l \in Layouts}
Nothing == {[kind |-> "silent", key |-> "", value |-> "", layout |-> s] : s \in Silent}

RECURSIVE Read(_, _)
Read(lines, so) == IF lines = <<>> THEN so
                   ELSE LET h == Head(lines) IN
                        Read(Tail(lines), IF h.kind = "pair" THEN (h.key :> h.value) @@ so ELSE so)
NoPairs == [k \in {} |-> ""]
Meaning(lines) == Read(lines, NoPairs)
None == [has |-> FALSE, value |-> ""]
Of(m, k) == IF k \in DOMAIN m THEN [has |-> TRUE, value |-> m[k]] ELSE None
Compared(m, n) == {[key |-> k, left |-> Of(m, k), right |-> Of(n, k)] : k \in {q \in DOMAIN m \cup DOMAIN n : Of(m, q) /= Of(n, q)}}

VARIABLES left, right
vars == <<left, right>>
Init == left = <<>> /\ right = <<>>
Next == \/ /\ Len(left) < MaxLen[1] /\ right = <<>>
           /\ \E x \in Pairs \cup Nothing : left' = Append(left, x)
           /\ UNCHANGED right
        \/ /\ Len(right) < MaxLen[2]
           /\ \E x \in Pairs \cup Nothing : right' = Append(right, x)
           /\ UNCHANGED left
Spec == Init /\ [][Next]_vars
AsPairs(m) == {[key |-> k, value |-> m[k]] : k \in DOMAIN m}
Emit == PrintT(ToJson([left |-> left, right |-> right, l |-> AsPairs(Meaning(left)), r |-> AsPairs(Meaning(right)),
                       diff |-> Compared(Meaning(left), Meaning(right))]))
-----------------------------------------------------------------------------
\* laws: swapping the files swaps the columns; a file does not differ from itself; equal meanings, no difference
Swapped == Compared(Meaning(right), Meaning(left)) =
           {[key |-> d.key, left |-> d.right, right |-> d.left] : d \in Compared(Meaning(left), Meaning(right))}
Same == Compared(Meaning(left), Meaning(right)) = {} <=> Meaning(left) = Meaning(right)
SilentLines == \A s \in Nothing : Meaning(Append(left, s)) = Meaning(left) /\ Meaning(<<s>> \o left) = Meaning(left)
=============================================================================
