------------------------------ MODULE Observe ------------------------------
(* What subscripting a stored observable gives (P17, P19).

   A datafile holds values over some of the dimensions time, shell, species,
   energy and pitch-angle cosine (mu).  Time, energy and mu have a grid; the
   radius of a shell depends on time.  A request gives, for each dimension of an
   observable, either positions (an integer, a slice, a list of integers), symbols
   (species), or physical values.  Positions and symbols select stored values; a
   physical value selects the linear interpolation between its neighbours on the
   grid, which is the stored value if it is on the grid, and is refused if it lies
   outside the grid.  A radius is located at each time separately, and is refused
   if the shells do not bracket it at a time the request needs.

   The state is the last request and its answer; requests follow each other in any
   order, and no answer depends on those before.                                  *)
EXTENDS Index, Rat, TLC, Json

CONSTANTS Classes,   \* which kinds of observable, by name
          Sizes,     \* number of times, shells, species, energies, mus
          MaxFree,   \* how many dimensions have a request which is not plain
          TimeForms, RadiusForms, EnergyForms, MuForms, \* values (numbers) to ask for: sequences
          Rich,      \* all index forms, or few
          Depth

Dims(c) == CASE c = "t" -> <<"time">> [] c = "e" -> <<"energy">> [] c = "m" -> <<"mu">> [] c = "p" -> <<"species">>
             [] c \in {"ts", "r"} -> <<"time", "shell">>
             [] c = "pe" -> <<"species", "energy">> [] c = "tsp" -> <<"time", "shell", "species">>
             [] c = "tspe" -> <<"time", "shell", "species", "energy">>
             [] c = "tspem" -> <<"time", "shell", "species", "energy", "mu">>
Size(d) == CASE d = "time" -> Sizes[1] [] d = "shell" -> Sizes[2] [] d = "species" -> Sizes[3] [] d = "energy" -> Sizes[4] [] d = "mu" -> Sizes[5]

(* The grids, in eighths of a day, MeV, quarters, and 32nds of an au.  Positions count from 0. *)
TimeGrid   == <<QI(0), QI(1), QI(3), QI(4)>>
EnergyGrid == <<QI(2), QI(3), QI(6)>>
MuGrid     == <<QI(-4), QI(-1), QI(1), QI(4)>>
Radius(t, s) == QI(4 + 3 * t + s * (5 + t) + (s * s) \div 2)
Grid(d, i) == CASE d = "time" -> TimeGrid[i + 1] [] d = "energy" -> EnergyGrid[i + 1] [] d = "mu" -> MuGrid[i + 1] [] OTHER -> QI(i)

(* The stored values: distinct, and not linear in any position. *)
Stored(c, t, s, p, e, m) ==
  CASE c = "r" -> Radius(t, s) [] c = "t" -> Grid("time", t) [] c = "e" -> Grid("energy", e) [] c = "m" -> Grid("mu", m)
    [] OTHER -> QI(3 + 7 * t * t + 5 * s * s + 2 * t * s + 31 * p + 11 * e * e + 3 * e * m + 13 * m * m - 5 * t * e + s * m)

Value(v)  == [k |-> "value", v |-> v]
Symbol(l) == [k |-> "symbol", p |-> l]
Plain(x) == x = At(0)

(* Where a value lies on an ascending grid: between position i and the next one, at a fraction w. *)
Between(n, g(_), v) == {i \in 0..(n - 1) : QLe(g(i), v) /\ (IF i = n - 1 THEN QLe(v, g(i)) ELSE QLt(v, g(i + 1)))}
Inside(n, g(_), v) == Between(n, g, v) # {}
Spot(n, g(_), v) == LET i == CHOOSE i \in Between(n, g, v) : TRUE
                    IN [i |-> i, w |-> IF g(i) = v THEN QZero ELSE QDiv(QSub(v, g(i)), QSub(g(i + 1), g(i)))]
OnPos(i) == [i |-> i, w |-> QZero]
Lin(at, f(_)) == IF at.w = QZero THEN f(at.i)
                 ELSE QAdd(QMul(QSub(QOne, at.w), f(at.i)), QMul(at.w, f(at.i + 1)))

(* The picks of a request along one dimension: a sequence. *)
IsRadius(d, x) == d = "shell" /\ x.k = "value"
Number(d, x) == CASE x.k = "value" -> Len(x.v) [] x.k = "symbol" -> Len(x.p) [] OTHER -> Len(Positions(Size(d), x))
Pick(d, x, m) ==
  CASE x.k = "value" -> LET g(i) == Grid(d, i) IN Spot(Size(d), g, x.v[m])
    [] x.k = "symbol" -> OnPos(x.p[m])
    [] OTHER -> OnPos(Positions(Size(d), x)[m])
ShellPick(x, m, t) == IF x.k = "value" THEN LET g(i) == Radius(t, i) IN Spot(Size("shell"), g, x.v[m]) ELSE Pick("shell", x, m)

Rows(at) == IF at.w = QZero THEN {at.i} ELSE {at.i, at.i + 1}
(* Whether a request for dimension d makes sense by itself ... *)
Alone(d, x) ==
  CASE x.k = "value" /\ d = "shell" -> TRUE
    [] x.k = "value" -> d # "species" /\ \A m \in 1..Len(x.v) : LET g(i) == Grid(d, i) IN Inside(Size(d), g, x.v[m])
    [] x.k = "symbol" -> d = "species" /\ \A m \in 1..Len(x.p) : x.p[m] \in 0..(Size(d) - 1)
    [] OTHER -> Denoted(Size(d), x)

\* a request: a function from the dimensions of the class to forms
Good(c, f) ==
  /\ \A d \in DOMAIN f : Alone(d, f[d])
  /\ \A d \in DOMAIN f : IsRadius(d, f[d]) =>
       \A m \in 1..Number("time", f["time"]), k \in 1..Len(f[d].v) :
         \A t \in Rows(Pick("time", f["time"], m)) : LET g(i) == Radius(t, i) IN Inside(Size("shell"), g, f[d].v[k])

At0(f, d, m) == IF d \in DOMAIN f THEN Pick(d, f[d], m[d]) ELSE OnPos(0)
Answer(c, f, m) == \* m: the member along each dimension
  LET FromTime(t) ==
        LET FromShell(s) ==
              LET FromEnergy(e) ==
                    LET FromMu(u) == Stored(c, t, s, At0(f, "species", m).i, e, u) IN Lin(At0(f, "mu", m), FromMu)
              IN Lin(At0(f, "energy", m), FromEnergy)
        IN Lin(IF "shell" \in DOMAIN f THEN ShellPick(f["shell"], m["shell"], t) ELSE OnPos(0), FromShell)
  IN Lin(At0(f, "time", m), FromTime)

(* The coordinate of a pick: a grid value, a radius, or a position. *)
Coordinate(d, x, m) == IF x.k = "value" THEN x.v[m] ELSE Grid(d, Pick(d, x, m).i)

RECURSIVE Flat(_, _, _, _)
Flat(c, f, ds, m) == \* all the values in order, the last dimension varying fastest
  IF ds = <<>> THEN <<Answer(c, f, m)>>
  ELSE LET d == Head(ds)
           RECURSIVE Over(_)
           Over(k) == IF k > Number(d, f[d]) THEN <<>> ELSE Flat(c, f, Tail(ds), (d :> k) @@ m) \o Over(k + 1)
       IN Over(1)
Empty == [x \in {} |-> 0]
Axis(f, d) == [name |-> IF IsRadius(d, f[d]) THEN "radius" ELSE d, values |-> [m \in 1..Number(d, f[d]) |-> Coordinate(d, f[d], m)]]
Result(c, f) ==
  IF ~Good(c, f) THEN [ok |-> FALSE, axes |-> <<>>, values |-> <<>>]
  ELSE [ok |-> TRUE, axes |-> [i \in 1..Len(Dims(c)) |-> Axis(f, Dims(c)[i])], values |-> Flat(c, f, Dims(c), Empty)]

(* What may be asked for. *)
Indices(n) == {At(i) : i \in {-n - 1, -1, n - 1, n}} \cup {All, Slice(1, NoInt, NoInt), List(<<n - 1, 0>>)}
              \cup (IF Rich THEN {At(i) : i \in (-n)..(n - 2)} \cup {Slice(NoInt, -1, NoInt), Slice(NoInt, NoInt, 2), Slice(NoInt, NoInt, -1), List(<<0, 0>>), List(<<-1>>), List(<<n>>)} ELSE {})
Values(d) == CASE d = "time" -> TimeForms [] d = "shell" -> RadiusForms [] d = "energy" -> EnergyForms [] d = "mu" -> MuForms [] OTHER -> {}
Forms(d) == Indices(Size(d)) \cup {Value(v) : v \in Values(d)}
            \cup (IF d = "species" THEN {Symbol(<<0>>), Symbol(<<Size(d) - 1>>), Symbol(<<Size(d)>>)} \cup (IF Size(d) > 1 THEN {Symbol(<<1, 0>>)} ELSE {}) ELSE {})

VARIABLES class, req, res
vars == <<class, req, res>>
None == [x \in {} |-> 0]
Init == class = "none" /\ req = None /\ res = [ok |-> FALSE, axes |-> <<>>, values |-> <<>>]
RangeOf(q) == {q[i] : i \in 1..Len(q)}
Requests(c) ==
  LET D == RangeOf(Dims(c))
      Free == {F \in SUBSET D : F # {} /\ Cardinality(F) <= MaxFree}
  IN UNION {{[d \in D |-> IF d \in F THEN g[d] ELSE At(0)] : g \in {h \in [F -> UNION {Forms(d) : d \in F}] : \A d \in F : h[d] \in Forms(d)}} : F \in Free}
Ask == \E c \in Classes : \E f \in Requests(c) : class' = c /\ req' = f /\ res' = Result(c, f)
Next == TLCGet("level") <= Depth /\ Ask
Spec == Init /\ [][Next]_vars
View == <<class, req>>

(* ---- properties of the answers *)
Max(S) == CHOOSE x \in S : \A y \in S : QLe(y, x)
Min(S) == CHOOSE x \in S : \A y \in S : QLe(x, y)
AllStored(c) == {Stored(c, t, s, p, e, m) : t \in 0..(Sizes[1] - 1), s \in 0..(Sizes[2] - 1), p \in 0..(Sizes[3] - 1), e \in 0..(Sizes[4] - 1), m \in 0..(Sizes[5] - 1)}
Bounded == res.ok => \A i \in 1..Len(res.values) : QLe(Min(AllStored(class)), res.values[i]) /\ QLe(res.values[i], Max(AllStored(class)))
(* interpolating a coordinate at its own values gives those values *)
Fixed == /\ (res.ok /\ class \in {"t", "e", "m"}) => res.values = res.axes[1].values
         /\ (res.ok /\ class = "r" /\ req["shell"].k = "value" /\ Number("time", req["time"]) = 1) => res.values = req["shell"].v
(* without physical values off the grid, only stored values *)
OnGrid == (res.ok /\ \A d \in DOMAIN req : req[d].k # "value") => RangeOf(res.values) \subseteq AllStored(class)
Shape == res.ok => Len(res.axes) = Len(Dims(class))

Everything(c) == [d \in RangeOf(Dims(c)) |-> All]
ASSUME PrintT(ToJson([full |-> {[class |-> c, values |-> Flat(c, Everything(c), Dims(c), Empty)] : c \in Classes \cup {"t", "e", "m", "p", "ts", "r", "tspe", "tspem"}}]))
Emit == PrintT(ToJson([class |-> class', req |-> [i \in 1..Len(Dims(class')) |-> req'[Dims(class')[i]]], res |-> res']))
=============================================================================
