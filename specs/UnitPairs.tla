----------------------------- MODULE UnitPairs -----------------------------
(* Every conversion between two named units: all prefixes of one against a set
   of prefixes of the other.                                                 *)
EXTENDS UnitDefs, Json
CONSTANTS Near      \* prefix symbols used on the second unit
VARIABLES p, a, q, b
vars == <<p, a, q, b>>
Init == p = 1 /\ a = 1 /\ q \in {PreNo(x) : x \in Near} /\ b \in 1..NA
Next == \/ p < Len(Prefixes) /\ p' = p + 1 /\ UNCHANGED <<a, q, b>>
        \/ p = Len(Prefixes) /\ a < NA /\ p' = 1 /\ a' = a + 1 /\ UNCHANGED <<q, b>>
Spec == Init /\ [][Next]_vars
Word(i, j) == <<Prefixes[i][1], Atom(j).s, Prefixes[i][2], Atom(j).n, Atom(j).q>>
Emit == LET SIr == Div(SI(p, a), SI(q, b)) CGr == Div(CG(p, a), CG(q, b)) IN
  PrintT(ToJson([u |-> Word(p, a), v |-> Word(q, b),
   siok |-> Pure(SIr), cgok |-> Pure(CGr), si |-> IF Pure(SIr) THEN Show(SIr) ELSE <<>>, cg |-> IF Pure(CGr) THEN Show(CGr) ELSE <<>>,
   same |-> Atom(a).q = Atom(b).q]))
\* mechanical units compare alike in both systems
Agree == LET SIr == Div(SI(p, a), SI(q, b)) CGr == Div(CG(p, a), CG(q, b)) IN
  (Atom(a).q = Atom(b).q /\ Pure(SIr) /\ Pure(CGr)) => SIr = CGr
=============================================================================
