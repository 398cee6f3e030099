----------------------------- MODULE UnitTable -----------------------------
(* The denotation of every prefixed named unit, and every special conversion,
   one record each.                                                          *)
EXTENDS UnitDefs, Json
VARIABLES p, a
vars == <<p, a>>
Init == (p \in 1..NP /\ a \in 1..NA) \/ (p = 0 /\ a \in 1..Len(Special))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Rec == IF p = 0
  THEN [kind |-> "special", u |-> Special[a][1], v |-> Special[a][2], r |-> Special[a][3]]
  ELSE [kind |-> "unit", prefix |-> Prefixes[p][1], pname |-> Prefixes[p][2], s |-> Atom(a).s, n |-> Atom(a).n,
        q |-> Atom(a).q, si |-> SI(p, a), cg |-> CG(p, a),
        mks |-> Atom(a).s \notin CgsOnly, cgs |-> Atom(a).s \notin MksOnly,
        gaussian |-> Atom(a).s \in Gaussian]
Emit == PrintT(ToJson(Rec))
=============================================================================
