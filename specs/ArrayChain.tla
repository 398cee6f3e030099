----------------------------- MODULE ArrayChain -----------------------------
(* Histories of an array: unit conversions, subscripts and transpositions,   *)
(* in any order.  The state is what the array is, however it came about.     *)
EXTENDS Labelled, TLC, Json

CONSTANTS Start,    \* the dimensions of the original array, in order
          Lengths,  \* a function from dimension to length
          Place,    \* weights which tell original positions apart
          Units,    \* a sequence of [name, num, den]: how many of it make one of the first
          Foreign,  \* names of units of other dimensions
          Exprs,    \* expressions for one axis
          Templates,\* sequences of 0 (a whole axis), -1 (an ellipsis), or n (the n-th chosen expression)
          Depth

VARIABLES arr, unit, last
vars == <<arr, unit, last>>

Original == [dims |-> Start, pos |-> [d \in {Start[m] : m \in 1..Len(Start)} |-> [m \in 1..Lengths[d] |-> m - 1]]]

Arity(t) == LET top == {t[m] : m \in 1..Len(t)} \union {0} IN CHOOSE n \in top : \A k \in top : k <= n
Instances(t) == {[m \in 1..Len(t) |-> CASE t[m] = 0 -> All [] t[m] = -1 -> Ell [] OTHER -> h[t[m]]] :
                   h \in [1..Arity(t) -> Exprs]}
Subscripts == TLCEval(UNION {Instances(t) : t \in Templates})

Init == arr = Original /\ unit = 1 /\ last = [op |-> "new"]

Convert(u) == /\ unit' = u /\ UNCHANGED arr
              /\ last' = [op |-> "withunit", unit |-> Units[u].name]
Reject(u)  == /\ UNCHANGED <<arr, unit>>
              /\ last' = [op |-> "refuse unit", unit |-> u]
Take(x) == IF Valid(Shape(arr), x)
           THEN arr' = Subscript(arr, x) /\ UNCHANGED unit /\ last' = [op |-> "subscript", x |-> x]
           ELSE UNCHANGED <<arr, unit>> /\ last' = [op |-> "refuse subscript", x |-> x]
Turn(q) == /\ arr' = Transpose(arr, q) /\ UNCHANGED unit
           /\ last' = [op |-> "transpose", names |-> arr'.dims, order |-> [m \in 1..Len(q) |-> q[m] - 1]]

Next == /\ TLCGet("level") <= Depth
        /\ \/ \E u \in 1..Len(Units) : Convert(u)
           \/ \E u \in Foreign : Reject(u)
           \/ \E x \in Subscripts : Take(x)
           \/ \E q \in Permutations(arr.dims) : Turn(q)

Spec == Init /\ [][Next]_vars
View == <<arr, unit>>

-----------------------------------------------------------------------------
Seen(a, u) == [dims |-> a.dims, pos |-> a.pos, unit |-> Units[u].name,
               num |-> Units[u].num, den |-> Units[u].den, values |-> Flat(Place, a)]
Emit == PrintT(ToJson([pre |-> [a |-> arr, u |-> unit], last |-> last', post |-> [a |-> arr', u |-> unit'],
                       seen |-> Seen(arr', unit')]))

ASSUME PrintT(ToJson([init |-> Seen(Original, 1)]))

TypeOK == /\ {arr.dims[m] : m \in 1..Len(arr.dims)} = DOMAIN Lengths
          /\ \A d \in DOMAIN arr.pos : \A m \in 1..Len(arr.pos[d]) : arr.pos[d][m] \in 0..(Lengths[d] - 1)
\* every value held is the original value of the named positions
Faithful == LET f == Flat(Place, arr) IN Len(f) = Product(Shape(arr))
\* turning and selecting commute, and a whole subscript selects everything
Commute ==
  \A q \in Permutations(arr.dims) : \A e \in Exprs :
     Valid(Shape(arr), <<e>>) =>
       LET d == arr.dims[1]
           t == Transpose(arr, q)
           p == CHOOSE m \in 1..Len(t.dims) : t.dims[m] = d
           x == [m \in 1..Len(t.dims) |-> IF m = p THEN e ELSE All]
       IN Subscript(t, x) = Transpose(Subscript(arr, <<e>>), q)
Identity == \A x \in {<<Ell>>, <<All>>, <<All, Ell>>} : Subscript(arr, x) = arr
=============================================================================
