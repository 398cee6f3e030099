------------------------------ MODULE Labelled ------------------------------
(* A labelled array: named dimensions in some order, and along each the      *)
(* positions it holds of an original axis.  What an array holds at given     *)
(* named positions is a property of those positions alone: neither the order *)
(* of the dimensions nor the unit in which numbers are written changes it.   *)
EXTENDS Integers, Sequences, FiniteSets, Index

\* row-major enumeration of the index tuples of a shape
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Tuple(shape, n) ==  \* the n-th (from 0) index tuple, each from 1
  [m \in 1..Len(shape) |->
     ((n \div Product(SubSeq(shape, m + 1, Len(shape)))) % shape[m]) + 1]

\* arr: [dims, pos] with pos a function on dimensions; Place(d) weighs dimension d
Shape(arr) == [m \in 1..Len(arr.dims) |-> Len(arr.pos[arr.dims[m]])]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* the original value at the named positions p: a number which determines the positions
Value(Place, arr, p) == 1 + Sum([m \in 1..Len(arr.dims) |-> Place[arr.dims[m]] * p[m]])
Flat(Place, arr) ==
  LET sh == Shape(arr)
  IN [n \in 1..Product(sh) |->
        LET t == Tuple(sh, n - 1)
        IN Value(Place, arr, [m \in 1..Len(sh) |-> arr.pos[arr.dims[m]][t[m]]])]

Compose(p, sel) == [m \in 1..Len(sel) |-> p[sel[m] + 1]]
Subscript(arr, x) ==
  LET sel == Select(Shape(arr), x)
      at == [d \in DOMAIN arr.pos |-> CHOOSE m \in 1..Len(arr.dims) : arr.dims[m] = d]
  IN [arr EXCEPT !.pos = [d \in DOMAIN arr.pos |-> Compose(arr.pos[d], sel[at[d]])]]
Permutations(d) == {q \in [1..Len(d) -> 1..Len(d)] : \A i, j \in 1..Len(d) : q[i] = q[j] => i = j}
Transpose(arr, q) == [arr EXCEPT !.dims = [m \in 1..Len(arr.dims) |-> arr.dims[q[m]]]]
=============================================================================
