-------------------------------- MODULE Edges --------------------------------
(* A graph of weighted edges.  A connection comes with its reverse, whose     *)
(* weight is the reciprocal; edges which exist are kept.  Weights are powers  *)
(* of two, given by their exponent; 99 is no weight.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Weights, Depth
VARIABLES edges, last   \* edges: set of <<start, end, weight>>
vars == <<edges, last>>

None == 99
Neg(w) == IF w = None THEN None ELSE -w
Has(E, s, e) == \E z \in E : z[1] = s /\ z[2] = e
With(E, s, e, w) == IF Has(E, s, e) THEN E ELSE E \union {<<s, e, w>>}
Add(s, e, w) ==
  /\ edges' = With(With(edges, s, e, w), e, s, Neg(w))
  /\ last' = [op |-> "add", s |-> s, e |-> e, w |-> w]
Init == edges = {} /\ last = [op |-> "new"]
Next == /\ TLCGet("level") <= Depth
        /\ \E s, e \in Nodes, w \in Weights : Add(s, e, w)
Spec == Init /\ [][Next]_vars
View == edges
Emit == PrintT(ToJson([pre |-> edges, last |-> last', post |-> edges']))
-----------------------------------------------------------------------------
Symmetric == \A z \in edges : z[1] /= z[2] => <<z[2], z[1], Neg(z[3])>> \in edges
Single == \A y, z \in edges : y[1] = z[1] /\ y[2] = z[2] => y = z
Kept == [][edges \subseteq edges']_vars
=============================================================================
