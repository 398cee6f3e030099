----------------------------- MODULE IndexArith -----------------------------
(* Arithmetic on index values and sequences, element by element, in whole     *)
(* numbers.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Numbers, Operands, Starts, Depth, Bound  \* Operands, Starts: sets of sequences of numbers
VARIABLES cur, last
vars == <<cur, last>>

RECURSIVE Div(_, _)
Div(a, b) == IF b < 0 THEN Div(-a, -b) ELSE a \div b
Mod(a, b) == a - b * Div(a, b)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Abs(a) == IF a < 0 THEN -a ELSE a

Ops == {"add", "sub", "mul", "floordiv", "mod", "pow"}
Rel == {"eq", "ne", "lt", "le", "gt", "ge"}
Defined(op, a, b) == CASE op \in {"floordiv", "mod"} -> b /= 0 [] op = "pow" -> b >= 0 /\ b <= 3 [] OTHER -> TRUE
Apply(op, a, b) == CASE op = "add" -> a + b [] op = "sub" -> a - b [] op = "mul" -> a * b
                     [] op = "floordiv" -> Div(a, b) [] op = "mod" -> Mod(a, b) [] op = "pow" -> Pow(a, b)
Holds(op, a, b) == CASE op = "eq" -> a = b [] op = "ne" -> a /= b [] op = "lt" -> a < b
                     [] op = "le" -> a <= b [] op = "gt" -> a > b [] op = "ge" -> a >= b

\* operands: [kind, v] with kind "int", "value" (one number) or "sequence"
Single == {[kind |-> k, v |-> <<n>>] : k \in {"int", "value"}, n \in Numbers}
Others == Single \union {[kind |-> "sequence", v |-> s] : s \in Operands}
Size(x, y) == IF x.kind = "sequence" THEN Len(x.v) ELSE Len(y.v)
El(x, n) == IF x.kind = "sequence" THEN x.v[n] ELSE x.v[1]
Match(x, y) == x.kind /= "sequence" \/ y.kind /= "sequence" \/ Len(x.v) = Len(y.v)
Kind(x, y) == IF "sequence" \in {x.kind, y.kind} THEN "sequence" ELSE "value"
Small(s) == \A n \in 1..Len(s) : Abs(s[n]) <= Bound

Binary(op, x, y, l, r) ==
  /\ Match(l, r)
  /\ LET n == Size(l, r)
         ok == \A m \in 1..n : Defined(op, El(l, m), El(r, m))
         neg == op = "pow" /\ \E m \in 1..n : El(r, m) < 0
     IN /\ ok \/ neg
        /\ LET v == IF ok THEN [m \in 1..n |-> Apply(op, El(l, m), El(r, m))] ELSE <<>>
           IN /\ ok => Small(v)
              /\ last' = [op |-> op, l |-> l, r |-> r, out |-> IF ok THEN "ok" ELSE "refused"]
              /\ cur' = IF ok THEN [kind |-> Kind(l, r), v |-> v] ELSE cur
Compare(op, l, r) ==
  /\ Match(l, r)
  /\ last' = [op |-> op, l |-> l, r |-> r, truth |-> [m \in 1..Size(l, r) |-> Holds(op, El(l, m), El(r, m))]]
  /\ UNCHANGED cur
Unary(op) ==
  /\ last' = [op |-> op]
  /\ cur' = [cur EXCEPT !.v = [n \in 1..Len(cur.v) |-> CASE op = "neg" -> -cur.v[n] [] op = "pos" -> cur.v[n] [] op = "abs" -> Abs(cur.v[n])]]
None == 99
Clamp(x, lo, hi) == IF lo /= None /\ x < lo THEN lo ELSE IF hi /= None /\ x > hi THEN hi ELSE x
Shift(k, lo, hi) ==
  /\ lo = None \/ hi = None \/ lo <= hi
  /\ last' = [op |-> "shift", k |-> k, lo |-> lo, hi |-> hi]
  /\ cur' = [cur EXCEPT !.v = [n \in 1..Len(cur.v) |-> Clamp(cur.v[n] + k, lo, hi)]]

Init == cur \in {[kind |-> "value", v |-> <<n>>] : n \in Numbers} \union {[kind |-> "sequence", v |-> s] : s \in Starts} /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E op \in Ops, y \in Others : Binary(op, cur, y, cur, y) \/ Binary(op, cur, y, y, cur)
     \/ \E op \in Rel, y \in Others : Compare(op, cur, y) \/ Compare(op, y, cur)
     \/ \E op \in {"neg", "pos", "abs"} : Unary(op)
     \/ \E k \in Numbers, lo, hi \in Numbers \union {None} : Shift(k, lo, hi)
Spec == Init /\ [][Next]_vars
View == cur
Emit == PrintT(ToJson([pre |-> cur, last |-> last', post |-> cur']))
-----------------------------------------------------------------------------
Division == \A a \in Numbers, b \in Numbers \ {0} :
  /\ a = b * Div(a, b) + Mod(a, b)
  /\ IF b > 0 THEN 0 <= Mod(a, b) /\ Mod(a, b) < b ELSE b < Mod(a, b) /\ Mod(a, b) <= 0
=============================================================================
