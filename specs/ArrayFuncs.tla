----------------------------- MODULE ArrayFuncs -----------------------------
(* Numpy functions on arrays.  The state is an array: names of dimensions,   *)
(* which positions of an original axis each still holds, the exponents of    *)
(* its unit (doubled, so that roots stay integral) and exact values in       *)
(* row-major order.  Each step applies one function, and says what must      *)
(* come of it.  Histories mix functions with subscripts and new units.       *)
EXTENDS Rat, Labelled, TLC, Json

CONSTANTS Starts,   \* a sequence of arrays
          Depth

VARIABLES acc, last
vars == <<acc, last>>

\* an array: [dims, pos, u, v]
Sh(a) == Shape(a)
Rank(a) == Len(a.dims)
Offset(sh, t) == 1 + Sum([m \in 1..Len(sh) |-> (t[m] - 1) * Product(SubSeq(sh, m + 1, Len(sh)))])
Get(a, t) == a.v[Offset(Sh(a), t)]
Build(sh, F(_)) == [n \in 1..Product(sh) |-> F(Tuple(sh, n - 1))]
With(a, dims, u, v) == [dims |-> dims, pos |-> [d \in {dims[m] : m \in 1..Len(dims)} |-> a.pos[d]], u |-> u, v |-> v]

\* ---------------------------------------------------------------- outcomes
Refused == [out |-> "refused"]
Unspecified == [out |-> "unspecified"]
Is(a) == [out |-> "array", a |-> a]
Number(u, q) == [out |-> "scalar", u |-> u, v |-> q]
Flat1(u, v) == [out |-> "flat", u |-> u, v |-> v]
Many(as) == [out |-> "list", as |-> as]
\* values which are no rationals are written as a function of rationals
Term(f, a, u) == [out |-> "term", f |-> f, a |-> a, u |-> u]

\* -------------------------------------------------------------- reductions
Ordered(A) == CHOOSE s \in [1..Cardinality(A) -> A] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Among(m, A) == Cardinality({k \in A : k <= m})
RECURSIVE FoldQ(_, _, _)
FoldQ(F(_, _), z, s) == IF s = <<>> THEN z ELSE FoldQ(F, F(z, Head(s)), Tail(s))
Total(s) == FoldQ(QAdd, QZero, s)
Collapse(f, s) == CASE f = "sum" -> Total(s)
                    [] f = "mean" -> QDiv(Total(s), QI(Len(s)))
                    [] f = "min" -> FoldQ(QMin, s[1], s)
                    [] f = "max" -> FoldQ(QMax, s[1], s)
Reduced(a, A, F(_)) ==
  LET B == (1..Rank(a)) \ A
      out == Ordered(A) rest == Ordered(B) sh == Sh(a)
      sub == [k \in 1..Len(out) |-> sh[out[k]]]
      Full(r, s) == [m \in 1..Rank(a) |-> IF m \in A THEN s[Among(m, A)] ELSE r[Among(m, B)]]
      shape == [k \in 1..Len(rest) |-> sh[rest[k]]]
      G(r) == F([n \in 1..Product(sub) |-> Get(a, Full(r, Tuple(sub, n - 1)))])
  IN [dims |-> [k \in 1..Len(rest) |-> a.dims[rest[k]]], v |-> Build(shape, G)]
Keep(a, r, u) == IF r.dims = <<>> THEN Number(u, r.v[1]) ELSE Is(With(a, r.dims, u, r.v))
Reduce(f, a, A) == LET F(s) == Collapse(f, s) IN Keep(a, Reduced(a, A, F), a.u)

Running(s) == [n \in 1..Len(s) |-> Total(SubSeq(s, 1, n))]
CumFlat(a) == Flat1(a.u, Running(a.v))
CumAxis(a, k) ==
  LET G(t) == Total([n \in 1..t[k] |-> Get(a, [t EXCEPT ![k] = n])])
  IN Is([a EXCEPT !.v = Build(Sh(a), G)])

\* ------------------------------------------------------- changes of shape
Singles(a) == {m \in 1..Rank(a) : Sh(a)[m] = 1}
Drop(a, A) == LET F(s) == s[1] IN Keep(a, Reduced(a, A, F), a.u)
Squeeze(a, A) == IF A \subseteq Singles(a) THEN Drop(a, A) ELSE Refused
Reversed(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
Turn(a, q) ==
  LET b == [a EXCEPT !.dims = [m \in 1..Rank(a) |-> a.dims[q[m]]]]
      Moved(t) == Get(a, [m \in 1..Rank(a) |-> t[CHOOSE k \in 1..Rank(a) : q[k] = m]])
  IN Is([b EXCEPT !.v = Build(Sh(b), Moved)])

\* ------------------------------------------------ integration, derivation
\* places along an axis: [q |-> coordinates, u |-> unit]
Spaced(n, d, u) == [q |-> [m \in 1..n |-> QMul(QI(m - 1), d)], u |-> u]
Coords == <<QZero, QOne, QI(3), QI(7)>>   \* unequal steps
UMul(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
UDiv(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Half == <<1, 2>>
Trapezoid(x, s) == Total([n \in 1..(Len(s) - 1) |-> QMul(QSub(x[n + 1], x[n]), QMul(Half, QAdd(s[n], s[n + 1])))])
Integral(a, k, x) == LET F(s) == Trapezoid(x.q, s) IN Keep(a, Reduced(a, {k}, F), UMul(a.u, x.u))
Slope(x, s, i, j) == QDiv(QSub(s[j], s[i]), QSub(x[j], x[i]))
\* first-order at the ends; inside, the derivative of the parabola through three neighbours
Derivative(x, s, i) ==
  IF i = 1 THEN Slope(x, s, 1, 2)
  ELSE IF i = Len(s) THEN Slope(x, s, i - 1, i)
  ELSE LET l == QSub(x[i], x[i - 1]) r == QSub(x[i + 1], x[i])
       IN QDiv(QAdd(QMul(r, Slope(x, s, i - 1, i)), QMul(l, Slope(x, s, i, i + 1))), QAdd(l, r))
Along(a, t, k) == [n \in 1..Sh(a)[k] |-> Get(a, [t EXCEPT ![k] = n])]
Gradient(a, k, x) ==
  LET G(t) == Derivative(x.q, Along(a, t, k), t[k])
  IN [a EXCEPT !.v = Build(Sh(a), G), !.u = UDiv(a.u, x.u)]
Gradable(a, K) == \A k \in K : Sh(a)[k] >= 2

\* -------------------------------------------------------------- elementwise
Squares == {k * k : k \in 0..40}
HasRoot(q) == q[1] \in Squares /\ q[2] \in Squares
RootI(k) == CHOOSE r \in 0..40 : r * r = k
Root(q) == <<RootI(q[1]), RootI(q[2])>>
Unitless(a) == \A i \in DOMAIN a.u : a.u[i] = 0
Even(a) == \A i \in DOMAIN a.u : a.u[i] % 2 = 0
Positive(a) == \A n \in DOMAIN a.v : a.v[n][1] > 0
Sqrt(a) ==
  IF ~Positive(a) \/ ~Even(a) THEN Unspecified
  ELSE LET u == [i \in DOMAIN a.u |-> a.u[i] \div 2]
       IN IF \A n \in DOMAIN a.v : HasRoot(a.v[n]) THEN Is([a EXCEPT !.u = u, !.v = [n \in DOMAIN a.v |-> Root(a.v[n])]])
          ELSE Term("sqrt", a, u)
Angle(a) == a.u[4] = 2 /\ \A i \in 1..3 : a.u[i] = 0
NoUnit(a) == [i \in DOMAIN a.u |-> 0]
Trig(f, a) == IF Angle(a) THEN Term(f, a, NoUnit(a)) ELSE IF Unitless(a) THEN Unspecified ELSE Refused
Log(f, a) == IF ~Positive(a) THEN Unspecified ELSE IF Unitless(a) THEN Term(f, a, NoUnit(a)) ELSE Refused

\* ------------------------------------------------------------------- steps
Chosen(a, k, s) ==  \* the positions s (from 1) along axis k
  LET b == [a EXCEPT !.pos[a.dims[k]] = [n \in 1..Len(s) |-> a.pos[a.dims[k]][s[n]]]]
      G(t) == Get(a, [t EXCEPT ![k] = s[t[k]]])
  IN Is([b EXCEPT !.v = Build(Sh(b), G)])
\* units 1 and 3 measure the same thing, and one of the first makes Ratio of the other
Ratio == QI(100)
Convert(a) ==
  LET i == IF a.u[1] /= 0 THEN 1 ELSE 3  c == IF i = 1 THEN Ratio ELSE QDiv(QOne, Ratio)
  IN IF a.u[i] /= 2 THEN Unspecified
     ELSE Is([a EXCEPT !.v = [n \in DOMAIN a.v |-> QMul(a.v[n], c)], !.u = [@ EXCEPT ![i] = 0, ![4 - i] = 2]])

Small(q) == q[1] \in -2000..2000 /\ q[2] \in 1..200
Tame(a) == /\ \A n \in DOMAIN a.v : Small(a.v[n])
           /\ \A i \in DOMAIN a.u : a.u[i] \in -4..4
Call(r, l) ==
  /\ r.out /= "unspecified"
  /\ last' = [op |-> l, r |-> r]
  /\ acc' = IF r.out = "array" THEN (IF Tame(r.a) THEN r.a ELSE acc) ELSE acc

Axes == 1..Rank(acc)
Sets == IF Rank(acc) = 0 THEN {{}} ELSE (SUBSET Axes) \ {{}}
Lengths == Sh(acc)
None == [i \in DOMAIN acc.u |-> 0]
Seconds == [i \in DOMAIN acc.u |-> IF i = 2 THEN 2 ELSE 0]
\* spacings along an axis of length n: of one, of a half, of half a second, unequal, unequal in seconds
Spacings == {"one", "half", "half s", "coords", "coords s"}
Places(n, s) == CASE s = "one" -> Spaced(n, QOne, None)
                  [] s = "half" -> Spaced(n, Half, None)
                  [] s = "half s" -> Spaced(n, Half, Seconds)
                  [] s = "coords" -> [q |-> SubSeq(Coords, 1, n), u |-> None]
                  [] s = "coords s" -> [q |-> SubSeq(Coords, 1, n), u |-> Seconds]

Only(g) == [i \in DOMAIN acc.u |-> IF i = g THEN 2 ELSE 0]
Mixtures == {"s and none", "first and third", "third and first"}
Mixed(n, s, k) == Spaced(n, Half, CASE s = "s and none" -> IF k = 1 THEN Only(2) ELSE None
                                    [] s = "first and third" -> IF k = 1 THEN Only(1) ELSE Only(3)
                                    [] s = "third and first" -> IF k = 1 THEN Only(3) ELSE Only(1))

Init == \E i \in DOMAIN Starts : acc = Starts[i] /\ last = [op |-> <<"new">>, r |-> Refused]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E f \in {"min", "max", "sum", "mean"} : \E A \in Sets : Call(Reduce(f, acc, A), <<"reduce", f, A>>)
     \/ Call(CumFlat(acc), <<"cumsum", 0>>)
     \/ \E k \in Axes : Call(CumAxis(acc, k), <<"cumsum", k>>)
     \/ Call(Squeeze(acc, Singles(acc)), <<"squeeze", {}>>)
     \/ \E A \in (SUBSET Axes) \ {{}} : Call(Squeeze(acc, A), <<"squeeze", A>>)
     \/ \E q \in Permutations(acc.dims) : Call(Turn(acc, q), <<"transpose", q>>)
     \/ \E k \in Axes : \E s \in Spacings : Call(Integral(acc, k, Places(Lengths[k], s)), <<"trapz", k, s>>)
     \/ \E k \in Axes : \E s \in Spacings :
          Call(IF Gradable(acc, {k}) THEN Is(Gradient(acc, k, Places(Lengths[k], s))) ELSE Refused, <<"gradient", k, s>>)
     \/ \E s \in Spacings : Rank(acc) > 0 /\
          Call(IF ~Gradable(acc, Axes) THEN Refused
               ELSE IF Rank(acc) = 1 THEN Is(Gradient(acc, 1, Places(Lengths[1], s)))
               ELSE Many([k \in 1..Rank(acc) |-> Gradient(acc, k, Places(Lengths[k], s))]), <<"gradient", 0, s>>)
     \* spacings of one unit along the first axis and of another along the rest: each gradient has its own unit, or
     \* the request is refused
     \/ \E s \in Mixtures : Rank(acc) > 1 /\ Gradable(acc, Axes) /\
          Call([out |-> "maybe", as |-> [k \in 1..Rank(acc) |-> Gradient(acc, k, Mixed(Lengths[k], s, k))]], <<"gradient", 0, s>>)
     \/ Call(Sqrt(acc), <<"sqrt">>)
     \/ \E f \in {"sin", "cos", "tan"} : Call(Trig(f, acc), <<f>>)
     \/ \E f \in {"log", "log10", "log2", "log1p"} : Call(Log(f, acc), <<f>>)
     \/ \E k \in Axes : \E s \in {<<1>>, <<Lengths[k]>>, [n \in 1..Lengths[k] |-> Lengths[k] + 1 - n], <<1, Lengths[k]>>} :
          Call(Chosen(acc, k, s), <<"take", k, s>>)
     \/ Call(Convert(acc), <<"convert">>)
Spec == Init /\ [][Next]_vars
View == acc
Emit == PrintT(ToJson([pre |-> acc, last |-> last', post |-> acc']))
-----------------------------------------------------------------------------
\* laws the specification itself must satisfy
TypeOK == Len(acc.v) = Product(Sh(acc)) /\ \A n \in DOMAIN acc.v : acc.v[n][2] > 0
Val(r) == IF r.out = "array" THEN r.a.v ELSE <<r.v>>
OneByOne ==  \* collapsing axes one after another is collapsing them together
  \A f \in {"min", "max", "sum", "mean"} : Rank(acc) >= 2 =>
     LET r == Reduce(f, acc, {1}) IN Val(Reduce(f, r.a, {1})) = Val(Reduce(f, acc, {1, 2}))
LastRunning == \A k \in Axes :
  LET c == CumAxis(acc, k).a n == Lengths[k] IN
  Val(Drop(Chosen(c, k, <<n>>).a, {k})) = Val(Reduce("sum", acc, {k}))
TurnBack == Turn(Turn(acc, [m \in 1..Rank(acc) |-> Rank(acc) + 1 - m]).a, [m \in 1..Rank(acc) |-> Rank(acc) + 1 - m]) = Is(acc)
\* the integral of the gradient over equal steps of two points is the difference of the ends
Fundamental == \A k \in Axes : Lengths[k] = 2 =>
  LET g == Gradient(acc, k, Places(2, "coords"))
      i == Integral(g, k, Places(2, "coords"))
      lo == Drop(Chosen(acc, k, <<1>>).a, {k}) hi == Drop(Chosen(acc, k, <<2>>).a, {k})
  IN Val(i) = [n \in 1..Len(Val(lo)) |-> QSub(Val(hi)[n], Val(lo)[n])]
=============================================================================
