----------------------------- MODULE UnitConv ------------------------------
(* Conversions between unit expressions.  A state is a pair (u, v) of unit
   expressions, grown term by term, with the ratio of what they denote in each
   system.  A conversion is sound when its factor is the ratio in a system in
   which u and v have the same dimension, and must be refused when there is
   no such system.                                                          *)
EXTENDS UnitDefs, Json
CONSTANTS Pool,      \* prefixed atoms <<prefix symbol, atom symbol>> used in products
          Exps,      \* exponents
          MaxSteps,
          Expansions, \* <<atom symbol, expression in (prefix, symbol, exponent)>>
          Lone       \* prefixed atoms that may be put on one side only
VARIABLES u, v, n, how, si, cg
vars == <<u, v, n, how, si, cg>>

PoolT == TLCEval({<<PreNo(x[1]), AtomNo(x[2])>> : x \in Pool})
LoneT == TLCEval({<<PreNo(x[1]), AtomNo(x[2])>> : x \in Lone})
Terms(e) == [i \in 1..Len(e) |-> <<PreNo(e[i][1]), AtomNo(e[i][2]), e[i][3]>>]
ExpT == TLCEval({<<AtomNo(x[1]), Terms(x[2])>> : x \in Expansions})
Like == TLCEval({<<x, y>> \in PoolT \X PoolT : x # y /\ Atoms[x[2]].q = Atoms[y[2]].q
                                       /\ Same(Atoms[x[2]].si, Atoms[y[2]].si)})
ASSUME TLCSet(11, Like) /\ TLCSet(12, LoneT) /\ TLCSet(13, ExpT)
Raise(e, k) == [i \in 1..Len(e) |-> <<e[i][1], e[i][2], k * e[i][3]>>]

Init == u = <<>> /\ v = <<>> /\ n = 0 /\ how = "pairs" /\ si = One /\ cg = One

Add(x, y, front) ==
  /\ u' = u \o x /\ v' = IF front THEN y \o v ELSE v \o y
  /\ si' = Mul(si, Div(SIx(x), SIx(y))) /\ cg' = Mul(cg, Div(CGx(x), CGx(y)))
Pair(xy, k, front) == Add(<<<<xy[1][1], xy[1][2], k>>>>, <<<<xy[2][1], xy[2][2], k>>>>, front) /\ how' = how
Expand(ex, k, left) ==
  LET a == <<<<NoP, ex[1], k>>>> b == Raise(ex[2], k) IN
  /\ IF left THEN Add(b, a, FALSE) ELSE Add(a, b, FALSE)
  /\ how' = IF how = "pairs" THEN "expanded" ELSE how
Only(x, k) == Add(<<<<x[1], x[2], k>>>>, <<>>, FALSE) /\ how' = "other"
Both(x, y, k) == Add(<<<<x[1], x[2], k>>>>, <<<<y[1], y[2], k>>>>, FALSE) /\ how' = "other"

Next == n < MaxSteps /\ n' = n + 1 /\
  \/ \E xy \in TLCGet(11), k \in Exps, f \in BOOLEAN : Pair(xy, k, f)
  \/ \E ex \in TLCGet(13), k \in Exps, l \in BOOLEAN : Expand(ex, k, l)
  \/ \E x \in TLCGet(12), k \in Exps : Only(x, k)
  \/ \E x, y \in TLCGet(12), k \in Exps : Both(x, y, k)
Spec == Init /\ [][Next]_vars

Words(e) == [i \in 1..Len(e) |-> <<Prefixes[e[i][1]][1], Atom(e[i][2]).s, e[i][3]>>]
Rec == [u |-> Words(u), v |-> Words(v), how |-> how, siok |-> Pure(si), cgok |-> Pure(cg),
        si |-> IF Pure(si) THEN Show(si) ELSE <<>>, cg |-> IF Pure(cg) THEN Show(cg) ELSE <<>>]
Emit == n = 0 \/ PrintT(ToJson(Rec))

\* term-wise and expanded pairs always have the same dimension
TermWise == how # "other" => Pure(si)
\* the ratio is the one the whole expressions have: factors multiply term by term
Homomorphic == si = Div(SIx(u), SIx(v)) /\ cg = Div(CGx(u), CGx(v))
=============================================================================
