------------------------------- MODULE Index -------------------------------
(* What a Python index expression denotes.  An expression for one axis is a *)
(* record: an integer, a slice (whose parts may be absent), or a list of    *)
(* integers; a whole expression is a sequence of those, with at most one    *)
(* ellipsis.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

NoInt == 99
At(i)          == [k |-> "int", i |-> i, j |-> 0, s |-> 0, l |-> <<>>]
Slice(i, j, s) == [k |-> "slice", i |-> i, j |-> j, s |-> s, l |-> <<>>]
List(l)        == [k |-> "list", i |-> 0, j |-> 0, s |-> 0, l |-> l]
Ell            == [k |-> "ell", i |-> 0, j |-> 0, s |-> 0, l |-> <<>>]
All            == Slice(NoInt, NoInt, NoInt)

InRange(n, i) == -n <= i /\ i < n
Wrap(n, i)    == IF i < 0 THEN i + n ELSE i
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* the first position and the (exclusive) bound of a slice of an axis of length n
Step(e)     == IF e.s = NoInt THEN 1 ELSE e.s
First(n, e) == IF e.i = NoInt THEN (IF Step(e) > 0 THEN 0 ELSE n - 1)
               ELSE IF Step(e) > 0 THEN Clip(Wrap(n, e.i), 0, n) ELSE Clip(Wrap(n, e.i), -1, n - 1)
Last(n, e)  == IF e.j = NoInt THEN (IF Step(e) > 0 THEN n ELSE -1)
               ELSE IF Step(e) > 0 THEN Clip(Wrap(n, e.j), 0, n) ELSE Clip(Wrap(n, e.j), -1, n - 1)
Count(n, e) == LET d == IF Step(e) > 0 THEN Last(n, e) - First(n, e) ELSE First(n, e) - Last(n, e)
                   s == IF Step(e) > 0 THEN Step(e) ELSE -Step(e)
               IN IF d <= 0 THEN 0 ELSE ((d - 1) \div s) + 1

\* Denoted(n, e): whether e denotes anything on an axis of length n; Positions: what
Denoted(n, e) == CASE e.k = "int" -> InRange(n, e.i)
                   [] e.k = "list" -> \A m \in 1..Len(e.l) : InRange(n, e.l[m])
                   [] OTHER -> TRUE
Positions(n, e) == CASE e.k = "int"  -> <<Wrap(n, e.i)>>
                     [] e.k = "list" -> [m \in 1..Len(e.l) |-> Wrap(n, e.l[m])]
                     [] OTHER -> [m \in 1..Count(n, e) |-> First(n, e) + (m - 1) * Step(e)]

IsEll(e) == e.k = "ell"
Ells(x)  == {m \in 1..Len(x) : IsEll(x[m])}
Fill(m)  == [q \in 1..m |-> All]
\* An ellipsis stands for as many whole axes as are missing; without one the missing axes are
\* the trailing ones.  (An ellipsis that stands for no axis is only accepted at the end.)
Expandable(d, x) ==
  /\ Cardinality(Ells(x)) <= 1
  /\ Len(x) - Cardinality(Ells(x)) <= d
  /\ (Len(x) > d) => IsEll(x[Len(x)])
Expand(d, x) ==
  IF Ells(x) = {} THEN x \o Fill(d - Len(x))
  ELSE LET p == CHOOSE m \in Ells(x) : TRUE
       IN SubSeq(x, 1, p - 1) \o Fill(d - Len(x) + 1) \o SubSeq(x, p + 1, Len(x))

\* shape: a sequence of axis lengths
Valid(shape, x) ==
  /\ Expandable(Len(shape), x)
  /\ LET f == Expand(Len(shape), x) IN \A m \in 1..Len(shape) : Denoted(shape[m], f[m])
Select(shape, x) ==
  LET f == Expand(Len(shape), x) IN [m \in 1..Len(shape) |-> Positions(shape[m], f[m])]
=============================================================================
