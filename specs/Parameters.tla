---------------------------- MODULE Parameters -----------------------------
(* Runtime parameters of a simulation (P20).

   A parameter has a definition in the source code: a number, another parameter, a
   constant, a sum or difference of some, or a product or ratio of two.  A run may give
   values to some parameters.  The value of a parameter is the given one, otherwise
   what its definition amounts to, given the current values of the others.

   Constants have definitions of their own, in terms of other constants.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Order,       \* sequence of names of parameters: a definition refers to earlier ones only
          Forms,       \* kinds of definitions to explore: set of strings
          Literals,    \* numbers in definitions and settings
          ConstDefs,   \* name -> sequence of [base, power], or a number
          MaxSet,      \* how many parameters a run may give
          Fixed,       \* the definitions of the package: name -> definition, or <<>>
          Given        \* names which a run may give

Lit(q) == [k |-> "lit", v |-> q, x |-> "", y |-> ""]
Ref(p) == [k |-> "ref", v |-> QOne, x |-> p, y |-> ""]
Const(c) == [k |-> "const", v |-> QOne, x |-> c, y |-> ""]
Two(k, q, p, r) == [k |-> k, v |-> q, x |-> p, y |-> r]

Names == {Order[i] : i \in DOMAIN Order}
Place(p) == CHOOSE i \in DOMAIN Order : Order[i] = p
Earlier(p) == {q \in Names : Place(q) < Place(p)}
Definitions(p) ==
  {Lit(q) : q \in IF "lit" \in Forms THEN Literals ELSE {}}
  \cup {Ref(q) : q \in IF "ref" \in Forms THEN Earlier(p) ELSE {}}
  \cup {Const(c) : c \in IF "const" \in Forms THEN DOMAIN ConstDefs ELSE {}}
  \cup {Two(k, v, q, r) : k \in {"sum", "diff"} \cap Forms, v \in {QOne}, q \in Earlier(p), r \in Earlier(p)}
  \cup {Two(k, v, q, r) : k \in {"sumlit", "difflit"} \cap Forms, v \in Literals, q \in Earlier(p), r \in {""}}
  \cup {Two(k, v, q, r) : k \in {"sumsum", "sumdiff", "diffsum", "diffdiff"} \cap Forms, v \in Literals, q \in Earlier(p), r \in Earlier(p)}
  \cup {Two(k, v, q, r) : k \in {"prod", "quot"} \cap Forms, v \in {QOne}, q \in Earlier(p), r \in Earlier(p)}
  \cup {Two(k, v, q, r) : k \in {"scaled"} \cap Forms, v \in Literals \ {QZero}, q \in Earlier(p), r \in {""}}

(* constants *)
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN QOne ELSE IF n > 0 THEN QMul(q, Pow(q, n - 1)) ELSE QDiv(Pow(q, n + 1), q)
RECURSIVE ConstValue(_), Times(_)
ConstValue(c) == Times(ConstDefs[c])
Times(parts) == IF parts = <<>> THEN QOne
                ELSE LET h == Head(parts)
                         b == IF h.base = "" THEN h.num ELSE ConstValue(h.base) IN
                     QMul(Pow(b, h.power), Times(Tail(parts)))

(* values: a number, or "undefined" for a ratio with nothing *)
Undef == <<0, 0>>
Both(a, b, f) == IF a = Undef \/ b = Undef THEN Undef ELSE f
RECURSIVE Value(_, _, _)
Value(defs, conf, p) ==
  IF p \in DOMAIN conf THEN conf[p]
  ELSE LET d == defs[p] X == Value(defs, conf, d.x) Y == Value(defs, conf, d.y) IN
    CASE d.k = "lit" -> d.v
      [] d.k = "ref" -> X
      [] d.k = "const" -> ConstValue(d.x)
      [] d.k = "sum" -> Both(X, Y, QAdd(X, Y))
      [] d.k = "diff" -> Both(X, Y, QSub(X, Y))
      [] d.k = "prod" -> Both(X, Y, QMul(X, Y))
      [] d.k = "quot" -> IF Y = Undef \/ Y = QZero THEN Undef ELSE Both(X, Y, QDiv(X, Y))
      [] d.k = "scaled" -> Both(X, X, QMul(d.v, X))
      [] d.k = "sumlit" -> Both(X, X, QAdd(X, d.v))
      [] d.k = "difflit" -> Both(X, X, QSub(X, d.v))
      [] d.k = "sumsum" -> Both(X, Y, QAdd(QAdd(X, Y), d.v))
      [] d.k = "sumdiff" -> Both(X, Y, QSub(QAdd(X, Y), d.v))
      [] d.k = "diffsum" -> Both(X, Y, QAdd(QSub(X, Y), d.v))
      [] d.k = "diffdiff" -> Both(X, Y, QSub(QSub(X, Y), d.v))

VARIABLES defs, conf
vars == <<defs, conf>>
Empty == [p \in {} |-> QOne]
AllDefs == IF Fixed /= <<>> THEN {Fixed}
           ELSE {d \in [Names -> UNION {Definitions(p) : p \in Names}] : \A p \in Names : d[p] \in Definitions(p)}
Init == defs \in AllDefs /\ conf = Empty
Set == /\ Cardinality(DOMAIN conf) < MaxSet
       /\ \E p \in Given \ DOMAIN conf : \E q \in Literals : conf' = (p :> q) @@ conf
       /\ UNCHANGED defs
Next == Set
Spec == Init /\ [][Next]_vars
Values == [p \in Names |-> Value(defs, conf, p)]
Pairs(f) == {[name |-> p, value |-> f[p]] : p \in DOMAIN f}
Emit == PrintT(ToJson([defs |-> {[name |-> p, def |-> defs[p]] : p \in Names}, conf |-> Pairs(conf), values |-> Pairs(Values)]))
ASSUME PrintT(ToJson([consts |-> {[name |-> c, value |-> ConstValue(c), parts |-> ConstDefs[c]] : c \in DOMAIN ConstDefs}]))
-----------------------------------------------------------------------------
\* laws: the given value always wins; what is not used does not matter
GivenWins == \A p \in DOMAIN conf : Values[p] = conf[p]
RECURSIVE Uses(_, _)
Uses(p, c) == {p} \cup (IF p \in DOMAIN c THEN {}
              ELSE UNION {Uses(q, c) : q \in {x \in {defs[p].x, defs[p].y} : x \in Names}})
Local == \A p \in Names : \A q \in DOMAIN conf :
           q \notin Uses(p, conf) => Value(defs, [x \in DOMAIN conf \ {q} |-> conf[x]], p) = Values[p]
=============================================================================
