------------------------------ MODULE Spellings ------------------------------
(* Ways of writing a measurement with numbers, numeric strings, units, lists  *)
(* and tuples.  A term is a leaf or a list of terms.  The values of an        *)
(* accepted spelling are all its numbers in the order in which they are       *)
(* written: nothing is dropped, repeated or reordered; what has to be decided *)
(* is whether it is a measurement, and its unit.                              *)
(* An answer is "ok", "refused" or "either" (refused, or exactly this), or    *)
(* "unspecified" where the text '1' could be a number as well as a unit.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wide, Deep
VARIABLES last
vars == <<last>>

Leaf(k) == [k |-> k, v |-> <<>>]
List(s) == [k |-> "list", v |-> s]
Num == Leaf("num")  Str == Leaf("str")  M == Leaf("m")  Cm == Leaf("cm")  One == Leaf("one")
Numbers == {Num, Str}
Units == {M, Cm, Leaf("unit1")}
UnitOf(t) == IF t.k = "unit1" THEN "1" ELSE t.k
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

RECURSIVE Holds(_, _), Leaves(_), Read(_, _), Eval(_)
Leaves(t) == IF t.k = "list" THEN UNION {Leaves(t.v[n]) : n \in 1..Len(t.v)} ELSE {t}
\* an empty list somewhere
Holds(t, n) == t.k = "list" /\ (Len(t.v) = n \/ \E m \in 1..Len(t.v) : Holds(t.v[m], n))
\* the same term with the text '1' read as a unit or as a number
Read(t, as) == IF t.k = "list" THEN List([n \in 1..Len(t.v) |-> Read(t.v[n], as)]) ELSE IF t.k = "one" THEN as ELSE t

No == [out |-> "refused", unit |-> ""]
Yes(out, u) == [out |-> out, unit |-> u]
Eval(t) ==
  IF t \in Numbers THEN Yes("ok", "1")
  ELSE IF t.k /= "list" \/ t.v = <<>> THEN No
  ELSE IF Len(t.v) = 1 THEN Eval(t.v[1])
  ELSE LET s == t.v
           lists == \A n \in 1..Len(s) : s[n].k = "list"
           parts == [n \in 1..Len(s) |-> Eval(s[n])]
           unit == IF Last(s) \in Units THEN UnitOf(Last(s)) ELSE "1"
           values == IF Last(s) \in Units THEN Front(s) ELSE s
           bare(x) == Leaves(x) \intersect Units = {}
       IN IF lists THEN
            IF \E n \in 1..Len(s) : parts[n].out = "refused" \/ parts[n].unit /= parts[1].unit THEN No
            ELSE Yes(IF \A n \in 1..Len(s) : parts[n].out = "ok" THEN "ok" ELSE "either", parts[1].unit)
          ELSE IF \A n \in 1..Len(values) : values[n] \in Numbers THEN Yes("ok", unit)
          ELSE IF Len(s) = 2 /\ Last(s) \in Units /\ s[1].k = "list" /\ s[1].v /= <<>> /\ \A n \in 1..Len(s[1].v) : s[1].v[n] \in Numbers
            THEN Yes("ok", unit)
          \* lists among numbers, or lists of lists with a unit: not needed, but their meaning would be clear
          ELSE IF /\ \A n \in 1..Len(values) : Eval(values[n]).out /= "refused"
                  /\ \A n \in 1..Len(values) : bare(values[n]) \/ (Eval(values[n]).unit = unit /\ Last(s) \in Units)
            THEN Yes("either", unit)
          ELSE No
\* where '1' is the last of plain numbers, it is their unit
RECURSIVE Clear(_)
Clear(t) ==
  \/ t.k /= "list" /\ t /= One
  \/ /\ t.k = "list" /\ t.v /= <<>>
     /\ IF Last(t.v) /= One THEN \A n \in 1..Len(t.v) : Clear(t.v[n]) /\ (Last(t.v) \in Units => One \notin Leaves(t.v[n]))
        ELSE /\ Len(t.v) > 1
             /\ \/ \A n \in 1..(Len(t.v) - 1) : t.v[n] = Num
                \/ Len(t.v) = 2 /\ t.v[1].k = "list" /\ t.v[1].v /= <<>> /\ \A n \in 1..Len(t.v[1].v) : t.v[1].v[n] = Num
Answer(t) ==
  IF One \notin Leaves(t) THEN Eval(t)
  ELSE LET u == Eval(Read(t, Leaf("unit1")))
           n == Eval(Read(t, Str))
       IN IF Clear(t) THEN u ELSE IF u = No /\ n = No THEN No ELSE [out |-> "unspecified", unit |-> ""]
-----------------------------------------------------------------------------
Lv == {Num, Str, M, Cm, One}
L1 == {List(s) : s \in Seqs(Lv, 3)}
Inner == {Num, Str, M, One} \union {List(s) : s \in Seqs({Num, M, Cm}, 2)}
L2 == {List(s) : s \in Seqs(Lv \union L1, 2)} \union {List(s) : s \in Seqs(Inner, Wide)}
Small == {Num, M} \union {List(s) : s \in Seqs({Num, M}, 2)}
L3 == {List(s) : s \in Seqs({Num, M} \union {List(z) : z \in Seqs(Small, 2)}, Deep)}

Init == last = [t |-> Num, r |-> No]
Next == TLCGet("level") <= 1 /\ \E t \in Lv \union L1 \union L2 \union L3 : last' = [t |-> t, r |-> Answer(t)]
Spec == Init /\ [][Next]_vars
View == TLCGet("level")
Emit == PrintT(ToJson(last'))
-----------------------------------------------------------------------------
\* wrapping a spelling in a list does not change it, nor does writing it twice change its unit
Wrap == \A t \in Lv \union L1 : Eval(List(<<t>>)) = Eval(t)
Twice == \A t \in L1 : Eval(t).out = "ok" /\ t.k = "list" => Eval(List(<<t, t>>)) = Eval(t)
\* a measurement has a number, and units which differ are never accepted
Sound == \A t \in L1 \union L2 : Eval(t).out = "ok" => /\ Leaves(t) \intersect Numbers /= {}
                                                       /\ ~({M, Cm} \subseteq Leaves(t))
ASSUME Wrap
ASSUME Twice
ASSUME Sound
=============================================================================
