----------------------------- MODULE IndexExprs -----------------------------
(* Every bounded index expression against every bounded shape: whether it     *)
(* denotes anything, which positions along each axis, and what its ellipsis   *)
(* stands for.  And the smallest range of positions of ascending arrays that  *)
(* encloses given targets.                                                    *)
EXTENDS Index, TLC, Json

CONSTANTS Shapes, Exprs, MaxLen,  \* MaxLen: the length of an expression
          Grids, Targets          \* sets of grids (sequences of rows of one length), of sequences of targets

VARIABLES given, last
vars == <<given, last>>

Expressions == UNION {[1..n -> Exprs] : n \in 1..MaxLen}
Range(s) == {s[n] : n \in 1..Len(s)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Low(row, t) == IF \E n \in 1..Len(row) : row[n] <= t THEN Max({n \in 1..Len(row) : row[n] <= t}) - 1 ELSE 0
Up(row, t)  == IF \E n \in 1..Len(row) : row[n] >= t THEN Min({n \in 1..Len(row) : row[n] >= t}) - 1 ELSE Len(row) - 1
Lows(g, ts) == {Low(g[n], ts[m]) : n \in 1..Len(g), m \in 1..Len(ts)}
Ups(g, ts)  == {Up(g[n], ts[m]) : n \in 1..Len(g), m \in 1..Len(ts)}

Init == /\ given \in [shape : Shapes, grid : {<<>>}] \union [shape : {<<>>}, grid : Grids]
        /\ last = [op |-> "new"]
Ask(x) ==
  /\ given.grid = <<>>
  /\ last' = IF Valid(given.shape, x)
             THEN [op |-> "select", x |-> x, ok |-> TRUE, sel |-> Select(given.shape, x), full |-> Expand(Len(given.shape), x)]
             ELSE [op |-> "select", x |-> x, ok |-> FALSE, expandable |-> Expandable(Len(given.shape), x)]
  /\ UNCHANGED given
Bracket(ts) ==
  /\ given.grid /= <<>>
  /\ last' = [op |-> "restrict", ts |-> ts, lower |-> Min(Lows(given.grid, ts)), upper |-> Max(Ups(given.grid, ts))]
  /\ UNCHANGED given
Next == (\E x \in Expressions : Ask(x)) \/ (\E ts \in Targets : Bracket(ts))
Spec == Init /\ [][Next]_vars
View == given
Emit == PrintT(ToJson([pre |-> given, last |-> last']))
-----------------------------------------------------------------------------
\* every position selected is one of the axis
Within == \A x \in Expressions : Valid(given.shape, x) =>
  \A m \in 1..Len(given.shape) : \A p \in Range(Select(given.shape, x)[m]) : 0 <= p /\ p < given.shape[m]
\* a target within the ends of a row lies between the entries at the ends of the range
Encloses == \A ts \in Targets : \A n \in 1..Len(given.grid) :
  LET row == given.grid[n] IN \A m \in 1..Len(ts) :
    (row[1] <= ts[m] /\ ts[m] <= row[Len(row)]) =>
      row[Min(Lows(given.grid, ts)) + 1] <= ts[m] /\ ts[m] <= row[Max(Ups(given.grid, ts)) + 1]
=============================================================================
