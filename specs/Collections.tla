----------------------------- MODULE Collections -----------------------------
(* What the pure collection helpers answer: unique, merge, nearest,           *)
(* slice-to-range, distribute, bijections, and the helpers which look into    *)
(* nested collections.  The definitions say what the answer is, not how it is *)
(* found; where several answers are right, the set of them is given.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Letters, MaxLen, NearMax, TreeDepth, TreeWidth, BMax
VARIABLES last
vars == <<last>>

Range(s) == {s[n] : n \in 1..Len(s)}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Injective(f) == \A p, q \in DOMAIN f : f[p] = f[q] => p = q
Abs(x) == IF x < 0 THEN -x ELSE x
-----------------------------------------------------------------------------
\* unique: the elements in order of their first appearance
IsUnique(s, r) ==
  /\ Range(r) = Range(s) /\ Injective(r)
  /\ \A p, q \in 1..Len(r) : p < q =>
       (CHOOSE n \in 1..Len(s) : s[n] = r[p] /\ \A m \in 1..(n-1) : s[m] /= r[p]) < (CHOOSE n \in 1..Len(s) : s[n] = r[q])
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE
  LET rest == Uniq(SubSeq(s, 1, Len(s) - 1))
  IN IF s[Len(s)] \in Range(rest) THEN rest ELSE Append(rest, s[Len(s)])
-----------------------------------------------------------------------------
\* merge: which element must come before which
Before(s) == {<<s[p], s[q]>> : <<p, q>> \in {z \in (1..Len(s)) \X (1..Len(s)) : z[1] < z[2]}}
Contradict(x, y) == \E z \in Before(x) : <<z[2], z[1]>> \in Before(y)
-----------------------------------------------------------------------------
\* nearest: the acceptable positions
Side(v, t, b) == {n \in 1..Len(v) : CASE b = "none" -> TRUE [] b = "lower" -> v[n] >= t [] b = "upper" -> v[n] <= t}
Near(v, t, b) == {n \in Side(v, t, b) : \A m \in Side(v, t, b) : Abs(v[n] - t) <= Abs(v[m] - t)}
-----------------------------------------------------------------------------
\* slices: 99 stands for nothing
No == 99
RECURSIVE Count(_, _, _)
Count(a, b, s) == IF (s > 0 /\ a >= b) \/ (s < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o Count(a + s, b, s)
-----------------------------------------------------------------------------
\* nested collections: [k |-> "int", "float" or "str", v |-> <<>>] or [k |-> "list" or "tuple", v |-> elements]
Leaf == {[k |-> k, v |-> <<>>] : k \in {"int", "float", "str"}}
RECURSIVE Tree(_)
Tree(d) == IF d = 0 THEN Leaf ELSE Leaf \union {[k |-> k, v |-> s] : k \in {"list", "tuple"}, s \in Seqs(Tree(d - 1), TreeWidth)}
Nested(t) == t.k \in {"list", "tuple"}
RECURSIVE Size(_), Bare(_)
Total(s, F(_)) == LET RECURSIVE Go(_)
                      Go(n) == IF n = 0 THEN 0 ELSE Go(n - 1) + F(s[n])
                  IN Go(Len(s))
Size(t) == IF Nested(t) THEN Total(t.v, Size) ELSE 1
Bare(t) == IF Nested(t) /\ Len(t.v) = 1 THEN Bare(t.v[1]) ELSE t
ShapeLike(t) == Nested(t) /\ t.v /= <<>> /\ \A n \in 1..Len(t.v) : t.v[n].k = "int"
Kinds == {"int", "float", "str", "list", "tuple"}
HasType(t, types, wrappers, strict) ==
  IF t.k \in types THEN TRUE
  ELSE IF t.k \notin wrappers THEN FALSE
  ELSE IF strict THEN \A n \in 1..Len(t.v) : t.v[n].k \in types
  ELSE \E n \in 1..Len(t.v) : t.v[n].k \in types
-----------------------------------------------------------------------------
CallUnique == \E s \in Seqs(Letters, MaxLen) : last' = [f |-> "unique", s |-> s, r |-> Uniq(s)]
Plain == {s \in Seqs(Letters, MaxLen) : Injective(s)}
CallMerge == \E x, y \in Plain :
  last' = [f |-> "merge", x |-> x, y |-> y, refused |-> Contradict(x, y), elements |-> Range(x) \union Range(y), before |-> Before(x) \union Before(y)]
CallNearest == \E v \in Seqs({2 * n : n \in 0..NearMax}, 4) \ {<<>>}, t \in -1..(2 * NearMax + 1), b \in {"none", "lower", "upper"} :
  /\ Side(v, t, b) /= {}
  /\ last' = [f |-> "nearest", v |-> v, t |-> t, b |-> b, r |-> Near(v, t, b)]
CallSlice == \E a \in {No, -3, 0, 1, 4}, b \in {No, -2, 0, 3, 6}, s \in {No, -2, -1, 1, 2}, w \in {No, -4, 0, 5} :
  last' = [f |-> "slice2range", a |-> a, b |-> b, s |-> s, w |-> w, refused |-> b = No /\ w = No,
           r |-> IF b = No /\ w = No THEN <<>> ELSE Count(IF a = No THEN 0 ELSE a, IF b = No THEN w ELSE b, IF s = No THEN 1 ELSE s)]
CallTree == \E t \in Tree(TreeDepth) :
  last' = [f |-> "tree", t |-> t, separable |-> Nested(t), size |-> Size(t), bare |-> Bare(t), shapelike |-> ShapeLike(t)]
CallHasType == \E t \in Tree(1), types \in {{"int"}, {"str"}, {"list"}, {"int", "float"}, {"str", "tuple"}}, wrappers \in SUBSET {"list", "tuple"}, strict \in BOOLEAN :
  /\ ~(strict /\ t.v = <<>>)   \* nothing is said about empty collections
  /\ last' = [f |-> "hastype", t |-> t, types |-> types, wrappers |-> wrappers, strict |-> strict, r |-> HasType(t, types, wrappers, strict)]
CallFirst == \E s \in Seqs(Leaf \union {[k |-> "list", v |-> <<>>]}, 3), k \in Kinds :
  LET P == {n \in 1..Len(s) : s[n].k = k}
  IN last' = [f |-> "first", s |-> s, k |-> k, r |-> IF P = {} THEN 0 ELSE CHOOSE n \in P : \A m \in P : n <= m]
CallDistribute == \E ka, kb \in {"one", "many"}, a, b \in Seqs(Letters, 2) :
  /\ ka = "one" => Len(a) = 1
  /\ kb = "one" => Len(b) = 1
  /\ last' = [f |-> "distribute", ka |-> ka, kb |-> kb, a |-> a, b |-> b, refused |-> ka = "one" /\ kb = "one",
              r |-> [n \in 1..(Len(a) * Len(b)) |-> <<a[((n - 1) \div Len(b)) + 1], b[((n - 1) % Len(b)) + 1]>>]]
CallBijection == \E n \in 0..BMax : \E f \in [1..n -> 1..BMax] :
  last' = [f |-> "bijection", m |-> f, refused |-> ~Injective(f),
           inverse |-> IF Injective(f) THEN {<<f[p], p>> : p \in 1..n} ELSE {}]

Init == last = [f |-> "new"]
Next == /\ TLCGet("level") <= 1
        /\ \/ CallUnique \/ CallMerge \/ CallNearest \/ CallSlice \/ CallTree
           \/ CallHasType \/ CallFirst \/ CallDistribute \/ CallBijection
Spec == Init /\ [][Next]_vars
View == TLCGet("level")
Emit == PrintT(ToJson(last'))
-----------------------------------------------------------------------------
\* properties of the answers
UniqueLaw == \A s \in Seqs(Letters, MaxLen) : IsUnique(s, Uniq(s)) /\ Uniq(Uniq(s)) = Uniq(s)
\* there is an order which keeps both orders exactly when they do not contradict each other
Small == {s \in Plain : Len(s) <= 3}
Merged(x, y) == {r \in [1..Cardinality(Range(x) \union Range(y)) -> Range(x) \union Range(y)] :
                   Injective(r) /\ Before(x) \union Before(y) \subseteq Before(r)}
MergeLaw == \A x, y \in Small : Contradict(x, y) <=> Merged(x, y) = {}
BareLaw == \A t \in Tree(TreeDepth) : Bare(Bare(t)) = Bare(t) /\ Size(Bare(t)) = Size(t)
ASSUME UniqueLaw
ASSUME MergeLaw
ASSUME BareLaw
=============================================================================
