----------------------------- MODULE ArrayArith -----------------------------
(* Arithmetic between labelled arrays.  An array is its dimensions, in order, *)
(* and along each the coordinates it covers.  A step combines the array with  *)
(* another one and says which element of the one meets which of the other in  *)
(* every element of the result, along which coordinates, or that it refuses.  *)
EXTENDS Labelled, TLC, Json

CONSTANTS LeftDims, RightDims,  \* sets of sequences of dimensions
          Choices,              \* dimension -> set of sequences of coordinates
          Classes,              \* "product", "sum", "power"
          Depth

VARIABLES acc, last
vars == <<acc, last>>

Range(s) == {s[n] : n \in 1..Len(s)}
Arrays(D) == UNION {{[dims |-> d, pos |-> p] : p \in {f \in [Range(d) -> UNION {Choices[x] : x \in Range(d)}] :
                                                         \A x \in Range(d) : f[x] \in Choices[x]}} : d \in D}
Lefts == TLCEval(Arrays(LeftDims))
Rights == TLCEval(Arrays(RightDims))

Shared(x, y) == Range(x.dims) \cap Range(y.dims)
Restrict(s, S) == SelectSeq(s, LAMBDA e : e \in S)
SameOrder(x, y) == Restrict(x.dims, Shared(x, y)) = Restrict(y.dims, Shared(x, y))
Length(x, d) == IF d \in Range(x.dims) THEN Len(x.pos[d]) ELSE 1
Fit(x, y) == \A d \in Shared(x, y) : Length(x, d) = Length(y, d) \/ 1 \in {Length(x, d), Length(y, d)}
\* any order that keeps the orders of both will do; this is one of them
RECURSIVE Merge(_, _)
Merge(s, t) ==
  IF s = <<>> THEN t ELSE IF t = <<>> THEN s
  ELSE IF Head(s) = Head(t) THEN <<Head(s)>> \o Merge(Tail(s), Tail(t))
  ELSE IF Head(s) \notin Range(t) THEN <<Head(s)>> \o Merge(Tail(s), t)
  ELSE <<Head(t)>> \o Merge(s, Tail(t))

\* the axes of a sum: equal, or a single coordinate which is one of the others
Fills(x, y, d) == \/ x.pos[d] = y.pos[d]
                  \/ Length(y, d) = 1 /\ y.pos[d][1] \in Range(x.pos[d])
                  \/ Length(x, d) = 1 /\ x.pos[d][1] \in Range(y.pos[d])
Allowed(class, x, y) ==
  /\ SameOrder(x, y) /\ Fit(x, y)
  /\ class = "sum" => x.dims = y.dims /\ \A d \in Shared(x, y) : Fills(x, y, d)
  /\ class = "power" => x.dims = y.dims
\* where the operands have different coordinates of one length, products may keep either
Clash(x, y) == {d \in Shared(x, y) : Length(x, d) = Length(y, d) /\ x.pos[d] /= y.pos[d]}
Specified(class, x, y) == class = "power" => Range(x.dims) = Range(y.dims)
ResultPos(x, y, d) ==
  IF d \notin Range(y.dims) THEN x.pos[d] ELSE IF d \notin Range(x.dims) THEN y.pos[d]
  ELSE IF Length(y, d) = 1 THEN x.pos[d] ELSE y.pos[d]
Result(x, y) == LET m == Merge(x.dims, y.dims) IN [dims |-> m, pos |-> [d \in Range(m) |-> ResultPos(x, y, d)]]

\* the element of x (numbered from 0, row-major) at the index tuple t of result r
RECURSIVE Offset(_, _, _, _)
Offset(x, r, t, n) ==
  IF n > Len(x.dims) THEN 0
  ELSE LET d == x.dims[n]
           at == CHOOSE m \in 1..Len(r.dims) : r.dims[m] = d
           i == IF Length(x, d) = 1 THEN 0 ELSE t[at] - 1
       IN i * Product([m \in 1..(Len(x.dims) - n) |-> Length(x, x.dims[n + m])]) + Offset(x, r, t, n + 1)
Meets(x, y, r) ==
  LET sh == Shape(r)
  IN [k \in 1..Product(sh) |-> LET t == Tuple(sh, k - 1) IN <<Offset(x, r, t, 1), Offset(y, r, t, 1)>>]

Outcome(class, x, y) ==
  IF ~Allowed(class, x, y) THEN [out |-> "refused"]
  ELSE LET r == Result(x, y) IN [out |-> "array", r |-> r, meets |-> Meets(x, y, r), clash |-> Clash(x, y)]

Combine(class, side, o, x) ==
  /\ last' = [class |-> class, side |-> side, x |-> x, o |-> o]
  /\ acc' = IF o.out = "array" /\ o.clash = {} THEN o.r ELSE acc
Init == acc \in Lefts /\ last = [class |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E class \in Classes, x \in Rights :
       /\ Specified(class, acc, x)
       /\ \/ Combine(class, "right", Outcome(class, acc, x), x)
          \/ Combine(class, "left", Outcome(class, x, acc), x)
Spec == Init /\ [][Next]_vars
View == acc
Emit == PrintT(ToJson([pre |-> acc, last |-> last', post |-> acc']))
-----------------------------------------------------------------------------
\* the result covers exactly the coordinates of both, each element from matching coordinates
Covers ==
  \A x \in Rights : Allowed("product", acc, x) =>
    LET r == Result(acc, x) IN
      /\ Range(r.dims) = Range(acc.dims) \union Range(x.dims)
      /\ Len(r.dims) = Cardinality(Range(r.dims))
      /\ Restrict(r.dims, Range(acc.dims)) = acc.dims /\ Restrict(r.dims, Range(x.dims)) = x.dims
      /\ \A d \in Range(r.dims) : Len(r.pos[d]) = IF Length(acc, d) = 1 THEN Length(x, d) ELSE Length(acc, d)
Symmetric == \A x \in Rights, c \in Classes : Allowed(c, acc, x) <=> Allowed(c, x, acc)
\* combining with itself pairs every element with itself
Diagonal == Meets(acc, acc, acc) = [k \in 1..Product(Shape(acc)) |-> <<k - 1, k - 1>>]
=============================================================================
