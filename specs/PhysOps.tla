------------------------------ MODULE PhysOps ------------------------------
(* Arithmetic on physical quantities.  The state is a quantity: what kind of  *)
(* object it is, the exponents of its unit (doubled, so that square roots     *)
(* stay integral), and its exact values.  Every step applies one operator,    *)
(* with an operand of the pool on either side, and says what must come of it: *)
(* a quantity, plain values, or a refusal.                                    *)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,     \* a sequence of operands [kind, u, v]
          Starts,   \* indices of operands histories start from
          Binary, Unary, \* names of operators
          Depth

VARIABLES acc, last
vars == <<acc, last>>

\* ------------------------------------------------------------------ values
Size(x) == Len(x.v)
Rank(k) == CASE k = "number" -> 0 [] k = "scalar" -> 1 [] k = "vector" -> 2 [] k = "tensor" -> 3 [] OTHER -> 4
IsArray(x) == x.kind \in {"array1", "array2"}
IsNumber(x) == x.kind = "number"
\* values are listed with the last axis varying fastest, so the shorter list repeats
Longer(x, y) == IF Size(x) >= Size(y) THEN Size(x) ELSE Size(y)
At(x, n) == x.v[((n - 1) % Size(x)) + 1]
Map2(F(_, _), x, y) == [n \in 1..Longer(x, y) |-> F(At(x, n), At(y, n))]
Map1(F(_), x) == [n \in 1..Size(x) |-> F(x.v[n])]
All(P(_), x) == \A n \in 1..Size(x) : P(x.v[n])

FloorQ(q) == q[1] \div q[2]     \* TLA+ division rounds down
Floor(q) == QI(FloorQ(q))
Ceil(q) == QI(-FloorQ(QNeg(q)))
Trunc(q) == IF q[1] < 0 THEN Ceil(q) ELSE Floor(q)
Round(q) == LET f == FloorQ(q) r == QSub(q, QI(f)) half == <<1, 2>>
            IN IF QLt(r, half) THEN QI(f) ELSE IF QLt(half, r) THEN QI(f + 1)
               ELSE IF f % 2 = 0 THEN QI(f) ELSE QI(f + 1)
FloorDiv(x, y) == Floor(QDiv(x, y))
Mod(x, y) == QSub(x, QMul(y, FloorDiv(x, y)))
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN QOne ELSE IF n < 0 THEN PowI(QDiv(QOne, x), -n) ELSE QMul(x, PowI(x, n - 1))
Squares == {k * k : k \in 0..40}
HasRoot(q) == q[1] \in Squares /\ q[2] \in Squares
RootI(k) == CHOOSE r \in 0..40 : r * r = k
Root(q) == <<RootI(q[1]), RootI(q[2])>>
\* x to the power p, for p an integer or half of one
PowDefined(x, p) == /\ p[2] \in {1, 2} /\ p[1] \in -3..3
                    /\ (p[2] = 2 => HasRoot(x))
                    /\ (p[1] <= 0 => x[1] /= 0)
Pow(x, p) == IF p[2] = 1 THEN PowI(x, p[1]) ELSE PowI(Root(x), p[1])

Small(q) == q[1] \in -300..300 /\ q[2] \in 1..300
Dyadic(q) == q[2] \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
NonZero(q) == q[1] /= 0

\* ------------------------------------------------------------------- units
Gens == 1..3   \* metre, second, kilometre
Unitless(x) == \A i \in Gens : x.u[i] = 0
UMul(a, b) == [i \in Gens |-> a[i] + b[i]]
UDiv(a, b) == [i \in Gens |-> a[i] - b[i]]
UPow(a, p) == [i \in Gens |-> (a[i] * p[1]) \div p[2]]
UPowDefined(a, p) == \A i \in Gens : (a[i] * p[1]) % p[2] = 0
\* a ratio of metres to kilometres: not unitless, and not a dimension either
Hidden(u) == u[1] + u[3] = 0 /\ u[2] = 0 /\ u[1] /= 0

\* ----------------------------------------------------------------- results
Join(x, y) ==
  IF IsArray(x) THEN x.kind ELSE IF IsArray(y) THEN y.kind
  ELSE IF Rank(x.kind) >= Rank(y.kind) THEN x.kind ELSE y.kind
\* arrays over different dimensions, and results with more dimensions than there are axes, are not specified here
Fits(x, y) == /\ (IsArray(x) /\ IsArray(y) => x.kind = y.kind)
              /\ (x.kind = "array1" => Size(y) <= 2) /\ (y.kind = "array1" => Size(x) <= 2)
Refused == [out |-> "refused"]
Unspecified == [out |-> "unspecified"]
Is(k, u, v) == [out |-> "quantity", kind |-> k, u |-> u, v |-> v]
Plain(v) == [out |-> "plain", v |-> v]

Additive(F(_, _), x, y) ==
  IF (IsNumber(x) /\ ~Unitless(y)) \/ (IsNumber(y) /\ ~Unitless(x)) THEN Refused
  ELSE IF x.u /= y.u THEN Refused
  ELSE IF {x.kind, y.kind} \in {{"vector", "array1"}, {"vector", "array2"}} THEN Refused
  ELSE Is(Join(x, y), x.u, Map2(F, x, y))
Multiplicative(F(_, _), U(_, _), x, y) == Is(Join(x, y), U(x.u, y.u), Map2(F, x, y))
Power(x, y) ==
  IF ~Unitless(y) THEN Refused
  ELSE IF y.kind \in {"number", "scalar"}
       THEN IF ~\A n \in 1..Size(x) : PowDefined(x.v[n], y.v[1]) THEN Unspecified
            ELSE IF ~UPowDefined(x.u, y.v[1]) THEN Unspecified
            ELSE IF IsNumber(x) THEN Plain(Map2(Pow, x, y))
            ELSE Is(Join(x, y), UPow(x.u, y.v[1]), Map2(Pow, x, y))
  ELSE IF ~Unitless(x) THEN Refused
  ELSE IF ~\A n \in 1..Longer(x, y) : PowDefined(At(x, n), At(y, n)) THEN Unspecified
  ELSE IF IsNumber(x) THEN Plain(Map2(Pow, x, y))
  ELSE Is(Join(x, y), x.u, Map2(Pow, x, y))
Bool(b) == IF b THEN QOne ELSE QZero
Comparative(F(_, _), x, y) ==
  IF IsNumber(x) \/ IsNumber(y) \/ x.u = y.u THEN Plain(Map2(F, x, y)) ELSE Refused
Same(x, y) ==
  IF IsNumber(x) \/ IsNumber(y) THEN Unspecified
  ELSE Plain(<<Bool(x.u = y.u /\ x.v = y.v /\ (Rank(x.kind) = 1) = (Rank(y.kind) = 1))>>)
Lt(a, b) == Bool(QLt(a, b))
Le(a, b) == Bool(QLe(a, b))
Gt(a, b) == Bool(QLt(b, a))
Ge(a, b) == Bool(QLe(b, a))
Apply(op, x, y) ==
  IF ~Fits(x, y) THEN Unspecified
  ELSE IF op \in {"truediv", "floordiv", "mod"} /\ ~All(NonZero, y) THEN Unspecified
  ELSE IF op \in {"floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne"} /\ ~(All(Dyadic, x) /\ All(Dyadic, y)) THEN Unspecified
  ELSE CASE op = "add" -> Additive(QAdd, x, y)
         [] op = "sub" -> Additive(QSub, x, y)
         [] op = "mul" -> Multiplicative(QMul, UMul, x, y)
         [] op = "truediv" -> Multiplicative(QDiv, UDiv, x, y)
         [] op = "floordiv" -> Multiplicative(FloorDiv, UDiv, x, y)
         [] op = "mod" -> Multiplicative(Mod, UDiv, x, y)
         [] op = "pow" -> Power(x, y)
         [] op = "lt" -> Comparative(Lt, x, y)
         [] op = "le" -> Comparative(Le, x, y)
         [] op = "gt" -> Comparative(Gt, x, y)
         [] op = "ge" -> Comparative(Ge, x, y)
         [] op = "eq" -> Same(x, y)
         [] op = "ne" -> LET s == Same(x, y) IN
                         IF s.out = "plain" THEN Plain(<<QSub(QOne, s.v[1])>>) ELSE s
Apply1(op, x) ==
  IF op \in {"neg", "pos", "abs"}
  THEN Is(x.kind, x.u, CASE op = "neg" -> Map1(QNeg, x) [] op = "pos" -> x.v [] OTHER -> Map1(QAbs, x))
  ELSE IF x.kind /= "scalar" \/ ~All(Dyadic, x) THEN Unspecified
  ELSE CASE op = "round" -> Is("scalar", x.u, Map1(Round, x))
         [] op = "floor" -> Is("scalar", x.u, Map1(Floor, x))
         [] op = "ceil" -> Is("scalar", x.u, Map1(Ceil, x))
         [] op = "trunc" -> Is("scalar", x.u, Map1(Trunc, x))
         [] op = "int" -> Plain(Map1(Trunc, x))
         [] op = "float" -> Plain(x.v)
         [] op = "complex" -> Plain(x.v)

\* --------------------------------------------------------------- histories
Step(r, l) ==
  /\ r.out /= "unspecified"
  /\ last' = [l EXCEPT !.r = r]
  /\ acc' = IF r.out = "quantity" /\ ~Hidden(r.u) /\ \A n \in DOMAIN r.v : Small(r.v[n])
            THEN [kind |-> r.kind, u |-> r.u, v |-> r.v] ELSE acc
Init == \E i \in Starts : acc = Pool[i] /\ last = [op |-> "new", side |-> "", i |-> i, r |-> Refused]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E op \in Binary, i \in DOMAIN Pool : Step(Apply(op, acc, Pool[i]), [op |-> op, side |-> "right", i |-> i, r |-> Refused])
     \/ \E op \in Binary, i \in DOMAIN Pool : Step(Apply(op, Pool[i], acc), [op |-> op, side |-> "left", i |-> i, r |-> Refused])
     \/ \E op \in Unary : Step(Apply1(op, acc), [op |-> op, side |-> "", i |-> 0, r |-> Refused])
Spec == Init /\ [][Next]_vars
View == acc
Emit == PrintT(ToJson([pre |-> acc, last |-> last', post |-> acc']))
-----------------------------------------------------------------------------
\* laws the specification itself must satisfy
TypeOK == /\ Size(acc) \in {1, 2, 4} /\ acc.kind /= "number"
          /\ \A n \in 1..Size(acc) : acc.v[n][2] > 0
Laws ==
  \A i \in DOMAIN Pool : LET y == Pool[i] IN
    /\ Fits(acc, y) =>
         /\ Apply("add", acc, y) = Apply("add", y, acc)
         /\ Apply("mul", acc, y) = Apply("mul", y, acc)
         /\ (Apply("add", acc, y).out = "refused") <=> (Apply("sub", acc, y).out = "refused")
    /\ (Fits(acc, y) /\ All(NonZero, y) /\ Apply("mul", acc, y).kind = acc.kind) =>
         Apply("truediv", [kind |-> acc.kind, u |-> Apply("mul", acc, y).u, v |-> Apply("mul", acc, y).v], y)
           = Is(acc.kind, acc.u, [n \in 1..Longer(acc, y) |-> At(acc, n)])
=============================================================================
