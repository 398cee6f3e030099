------------------------------ MODULE UnitOps ------------------------------
(* Histories of unit arithmetic.  Each state is a unit reached by multiplying,
   dividing and raising units, with what it must denote; the invariants are the
   laws of an abelian group, so every spelling of the same history is one unit. *)
EXTENDS UnitDefs, Json
CONSTANTS Pool,     \* <<prefix, atom>> operands
          Powers,   \* integer powers
          MaxSteps
VARIABLES path, si, cg
vars == <<path, si, cg>>
PoolT == {<<PreNo(x[1]), AtomNo(x[2])>> : x \in Pool}
ASSUME TLCSet(11, PoolT)
W(x) == x
None == <<0, 0>>
Name(x) == IF x = None THEN <<"", "">> ELSE <<Prefixes[x[1]][1], Atom(x[2]).s>>
Init == \E x \in TLCGet(11) : path = <<<<"unit", W(x), 1>>>> /\ si = SI(x[1], x[2]) /\ cg = CG(x[1], x[2])
Step(op, x, n, s, g) == path' = Append(path, <<op, x, n>>) /\ si' = s /\ cg' = g
Even(v) == \A i \in Gens : v[i] % 2 = 0
Half(v) == [i \in Gens |-> v[i] \div 2]
Next == Len(path) < MaxSteps /\
  \/ \E x \in TLCGet(11) : Step("mul", W(x), 1, Mul(si, SI(x[1], x[2])), Mul(cg, CG(x[1], x[2])))
  \/ \E x \in TLCGet(11) : Step("div", W(x), 1, Div(si, SI(x[1], x[2])), Div(cg, CG(x[1], x[2])))
  \/ \E x \in TLCGet(11) : Step("rdiv", W(x), 1, Div(SI(x[1], x[2]), si), Div(CG(x[1], x[2]), cg))
  \/ \E n \in Powers : Step("pow", None, n, Pow(si, n), Pow(cg, n))
  \/ Even(si) /\ Even(cg) /\ Step("root", None, 2, Half(si), Half(cg))
  \/ Step("square", None, 2, Mul(si, si), Mul(cg, cg))
  \/ Step("inv", None, 2, Pow(si, -1), Pow(cg, -1))
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([path |-> [i \in DOMAIN path |-> <<path[i][1], Name(path[i][2]), path[i][3]>>], si |-> si, cg |-> cg]))
\* dimensions never depend on the prefixes, and the two systems agree on mechanical units
Mechanical == LET used == {Name(path[i][2])[2] : i \in DOMAIN path} IN
  (used \cap {"A","C","V","Ω","S","F","Wb","H","T","e"} = {} /\ used \cap Gaussian = {}) => Same(si, cg)
=============================================================================
