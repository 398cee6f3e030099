------------------------------ MODULE Derived ------------------------------
(* What derived observables are (P18).

   Every derived observable is a term over the stored ones.  The terms are below,
   once for datafiles with the particle distribution and once for those with flux;
   they have to be homogeneous: what is added has the same unit and what an angle
   function or a variable power takes has none, and the unit and dimensions of the
   term are those of the observable.  Asking for a derived observable gives the
   value of its term at the positions the request denotes (see Observe); where a
   request falls between grid points, that is the term of interpolated values or
   the interpolated value of the term.

   Observables combine by + - * / and powers into further observables; sums are for
   observables with the same unit and dimensions only.                            *)
EXTENDS Observe

CONSTANTS Kind,     \* "dist" or "flux"
          Combine,  \* how deep to combine observables
          Minima    \* sequences of minimum energies of integral flux

V(n) == <<"V", n>>
K(n) == <<"K", n>>        \* a universal constant
P(n) == <<"P", n>>        \* a parameter of the run
N(a, b) == <<"N", a, b>>
Add(a, b) == <<"+", a, b>>
Sub(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Pow(a, n, d) == <<"pow", a, n, d>>
PowP(a, p) == <<"powp", a, p>>
Sq(a) == Pow(a, 2, 1)
Sqrt(a) == Pow(a, 1, 2)
Fn(f, a) == <<"fn", f, a>>                    \* sin, cos, arccos (of a value clipped to -1..1), abs
Along(f, a, d) == <<"along", f, a, d>>        \* mean, sum, cumsum, back (x[i] - x[i-1], 0 at the start), index (gradient by position)
Slope(a, b, d) == <<"slope", a, b, d>>        \* the gradient of a by b
Shift(a, k) == <<"shift", a, k>>              \* at the shell k further out, or the last
SumOf(a, b, c) == Add(Add(a, b), c)
Dot(a, b) == SumOf(Mul(V(a \o "r"), V(b \o "r")), Mul(V(a \o "theta"), V(b \o "theta")), Mul(V(a \o "phi"), V(b \o "phi")))

Mag(a) == Sqrt(Dot(a, a))
Cosine == Div(Dot("u", "b"), Mul(Mag("u"), Mag("b")))
Angle == Fn("arccos", Cosine)
Para == Div(Dot("u", "b"), Mag("b"))
C == K("c")
\* pc = sqrt((K + m c^2)^2 - (m c^2)^2), and the rigidity is p / q
RigidityOf(e) == Mul(Sqrt(Sub(Sq(Add(Div(e, V("mass")), Sq(C))), Pow(C, 4, 1))), Div(Div(V("mass"), C), V("charge")))
Rigidity == RigidityOf(V("energy"))
Mfp == Mul(P("lambda0"), Mul(PowP(Div(V("r"), K("au")), "mfpRadialPower"), PowP(Div(Rigidity, RigidityOf(K("MeV"))), "rigidityPower")))
Kxx == Mul(Mul(Mfp, Add(Sq(Fn("cos", Angle)), Mul(P("kper / kpar"), Sq(Fn("sin", Angle))))), Div(V("v"), N(3, 1)))
Rate == LET u1 == Shift(Mag("u"), 1)
            both == SumOf(Mul(Shift(V("ur"), 1), Shift(V("ur"), -1)), Mul(Shift(V("utheta"), 1), Shift(V("utheta"), -1)), Mul(Shift(V("uphi"), 1), Shift(V("uphi"), -1)))
            x == Div(Kxx, Mag("u"))
        IN Div(Mul(u1, Fn("abs", Sub(N(1, 1), Div(both, Sq(u1))))), Add(Shift(x, 1), Shift(x, -1)))
Iso == IF Kind = "dist" THEN Along("mean", V("f"), "mu") ELSE Div(Mul(Mul(N(1, 2), V("flux")), Sq(V("mass"))), V("energy"))
Flux == IF Kind = "dist" THEN Div(Mul(Mul(N(2, 1), Iso), V("energy")), Sq(V("mass"))) ELSE V("flux")
Moment(n) == Along("sum", Mul(Mul(Pow(V("v"), n, 1), Iso), Along("index", V("v"), "energy")), "energy")
Density == Mul(V("mass"), Moment(4))

Def == ("x" :> Mul(V("r"), Mul(Fn("sin", V("theta")), Fn("cos", V("phi"))))
     @@ "y" :> Mul(V("r"), Mul(Fn("sin", V("theta")), Fn("sin", V("phi"))))
     @@ "z" :> Mul(V("r"), Fn("cos", V("theta")))
     @@ "bmag" :> Mag("b") @@ "umag" :> Mag("u") @@ "ubmag" :> Mul(Mag("u"), Mag("b")) @@ "udotb" :> Dot("u", "b")
     @@ "angle" :> Angle @@ "upara" :> Para @@ "uperp" :> Sqrt(Sub(Dot("u", "u"), Sq(Para)))
     @@ "divu" :> Mul(N(-1, 1), Div(Slope(V("rho"), V("time"), "time"), V("rho")))
     @@ "rigidity" :> Rigidity @@ "mfp" :> Mfp @@ "ar" :> Rate
     @@ "flux" :> Flux @@ "fluence" :> Along("cumsum", Mul(Flux, Along("back", V("time"), "time")), "time")
     @@ "energy density" :> Density @@ "average energy" :> Mul(N(1, 2), Div(Density, Moment(2))))

\* units: exponents of length, time, mass, charge and magnetic field (whose relation to charge depends on the system)
U(a, b, c, d) == <<QI(a), QI(b), QI(c), QI(d), QI(0)>>
Field(a, b) == <<QI(a), QI(b), QI(0), QI(0), QI(1)>>
UnitOf == [n \in {"r"} |-> U(1, 0, 0, 0)] @@ [n \in {"time"} |-> U(0, 1, 0, 0)] @@ [n \in {"theta", "phi", "mu"} |-> U(0, 0, 0, 0)]
       @@ [n \in {"br", "btheta", "bphi"} |-> Field(0, 0)] @@ [n \in {"ur", "utheta", "uphi", "v"} |-> U(1, -1, 0, 0)]
       @@ [n \in {"rho"} |-> U(-3, 0, 0, 0)] @@ [n \in {"f"} |-> U(-6, 3, 0, 0)] @@ [n \in {"flux"} |-> U(-4, 1, -1, 0)]
       @@ [n \in {"energy"} |-> U(2, -2, 1, 0)] @@ [n \in {"mass"} |-> U(0, 0, 1, 0)] @@ [n \in {"charge"} |-> U(0, 0, 0, 1)]
       @@ [n \in {"c"} |-> U(1, -1, 0, 0)] @@ [n \in {"au", "lambda0"} |-> U(1, 0, 0, 0)] @@ [n \in {"MeV"} |-> U(2, -2, 1, 0)] @@ [n \in {"kper / kpar"} |-> U(0, 0, 0, 0)]
Expected == [n \in {"x", "y", "z", "mfp"} |-> U(1, 0, 0, 0)] @@ [n \in {"bmag"} |-> Field(0, 0)] @@ [n \in {"umag", "upara", "uperp"} |-> U(1, -1, 0, 0)]
       @@ [n \in {"ubmag", "udotb"} |-> Field(1, -1)] @@ [n \in {"angle"} |-> U(0, 0, 0, 0)] @@ [n \in {"divu", "ar"} |-> U(0, -1, 0, 0)]
       @@ [n \in {"rigidity"} |-> U(1, -1, 1, -1)] @@ [n \in {"flux"} |-> U(-4, 1, -1, 0)] @@ [n \in {"fluence"} |-> U(-4, 2, -1, 0)]
       @@ [n \in {"energy density"} |-> U(-1, -2, 1, 0)] @@ [n \in {"average energy"} |-> U(2, -2, 1, 0)]
ClassOf == [n \in {"x", "y", "z", "bmag", "umag", "ubmag", "udotb", "angle", "upara", "uperp", "divu"} |-> "ts"] @@ [n \in {"rigidity"} |-> "pe"]
       @@ [n \in {"mfp", "ar", "flux", "fluence"} |-> "tspe"] @@ [n \in {"energy density", "average energy"} |-> "tsp"]
StoredClass == [n \in {"r", "theta", "phi", "br", "btheta", "bphi", "ur", "utheta", "uphi", "rho"} |-> "ts"] @@ [n \in {"f"} |-> "tspem"] @@ [n \in {"flux"} |-> "tspe"]
       @@ [n \in {"energy", "v"} |-> "e"] @@ [n \in {"mass", "charge"} |-> "p"] @@ [n \in {"time"} |-> "t"] @@ [n \in {"mu"} |-> "m"]

UAdd(a, b) == [i \in 1..5 |-> QAdd(a[i], b[i])]
UScale(a, x) == [i \in 1..5 |-> QMul(a[i], x)]
Plain0 == U(0, 0, 0, 0)
Bad == <<"bad">>
RECURSIVE Unit(_)
Unit(t) ==
  CASE t[1] \in {"V", "K", "P"} -> UnitOf[t[2]]
    [] t[1] = "N" -> Plain0
    [] t[1] \in {"+", "-"} -> LET a == Unit(t[2]) b == Unit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE IF a = b THEN a ELSE Bad
    [] t[1] = "*" -> LET a == Unit(t[2]) b == Unit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE UAdd(a, b)
    [] t[1] = "/" -> LET a == Unit(t[2]) b == Unit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE UAdd(a, UScale(b, QI(-1)))
    [] t[1] = "pow" -> LET a == Unit(t[2]) IN IF a = Bad THEN Bad ELSE UScale(a, Q(t[3], t[4]))
    [] t[1] = "powp" -> IF Unit(t[2]) = Plain0 THEN Plain0 ELSE Bad
    [] t[1] = "fn" -> IF t[2] = "abs" THEN Unit(t[3]) ELSE IF Unit(t[3]) = Plain0 THEN Plain0 ELSE Bad
    [] t[1] = "along" -> Unit(t[3])
    [] t[1] = "slope" -> LET a == Unit(t[2]) b == Unit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE UAdd(a, UScale(b, QI(-1)))
    [] t[1] = "shift" -> Unit(t[2])

RECURSIVE DimSeq(_)
Join(a, b) == a \o SelectSeq(b, LAMBDA d : d \notin RangeOf(a))
DimSeq(t) ==
  CASE t[1] = "V" -> Dims((StoredClass @@ ClassOf)[t[2]])
    [] t[1] \in {"K", "P", "N"} -> <<>>
    [] t[1] \in {"+", "-", "*", "/"} -> Join(DimSeq(t[2]), DimSeq(t[3]))
    [] t[1] \in {"pow", "powp", "shift"} -> DimSeq(t[2])
    [] t[1] = "fn" -> DimSeq(t[3])
    [] t[1] = "along" -> IF t[2] \in {"mean", "sum"} THEN SelectSeq(DimSeq(t[3]), LAMBDA d : d # t[4]) ELSE DimSeq(t[3])
    [] t[1] = "slope" -> Join(DimSeq(t[2]), DimSeq(t[3]))
RECURSIVE Local(_)
Local(t) == \* depends only on values at the same position
  CASE t[1] \in {"V", "K", "P", "N"} -> TRUE
    [] t[1] \in {"+", "-", "*", "/"} -> Local(t[2]) /\ Local(t[3])
    [] t[1] \in {"pow", "powp"} -> Local(t[2])
    [] t[1] = "fn" -> Local(t[3])
    [] t[1] = "along" -> t[2] = "mean" /\ t[4] = "mu" /\ Local(t[3])
    [] OTHER -> FALSE

Homogeneous == \A n \in DOMAIN Def : Unit(Def[n]) = Expected[n]
Extent == \A n \in DOMAIN Def : RangeOf(DimSeq(Def[n])) = RangeOf(Dims(ClassOf[n]))

(* ---- combinations of observables *)
Atoms == {"br", "ur", "uphi", "r", "mass", "rigidity", "umag", "mfp"}
AtomUnit == UnitOf @@ Expected
RECURSIVE Combos(_)
Combos(n) ==
  IF n = 0 THEN {V(a) : a \in Atoms}
  ELSE LET S == Combos(n - 1)
       IN S \cup {<<op, a, b>> : op \in {"+", "-", "*", "/"}, a \in S, b \in {V(x) : x \in Atoms}}
            \cup {<<op, a, b>> : op \in {"*", "/"}, a \in {V(x) : x \in {"r", "ur"}}, b \in S}
            \cup {Pow(a, e[1], e[2]) : a \in S, e \in {<<2, 1>>, <<-1, 1>>, <<1, 2>>, <<0, 1>>}}
RECURSIVE CUnit(_)
CUnit(t) ==
  CASE t[1] = "V" -> AtomUnit[t[2]]
    [] t[1] \in {"+", "-"} -> LET a == CUnit(t[2]) b == CUnit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE IF a = b /\ RangeOf(DimSeq(t[2])) = RangeOf(DimSeq(t[3])) THEN a ELSE Bad
    [] t[1] = "*" -> LET a == CUnit(t[2]) b == CUnit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE UAdd(a, b)
    [] t[1] = "/" -> LET a == CUnit(t[2]) b == CUnit(t[3]) IN IF a = Bad \/ b = Bad THEN Bad ELSE UAdd(a, UScale(b, QI(-1)))
    [] t[1] = "pow" -> LET a == CUnit(t[2]) IN IF a = Bad THEN Bad ELSE UScale(a, Q(t[3], t[4]))
ASSUME PrintT(ToJson([def |-> {[name |-> n, term |-> Def[n], unit |-> Expected[n], dims |-> Dims(ClassOf[n]), class |-> ClassOf[n], local |-> Local(Def[n])] : n \in DOMAIN Def},
                      combos |-> {[term |-> t, ok |-> CUnit(t) # Bad, unit |-> IF CUnit(t) = Bad THEN Plain0 ELSE CUnit(t), dims |-> DimSeq(t)] : t \in Combos(Combine)}]))
ASSUME Homogeneous
ASSUME Extent

(* ---- integral flux: from each minimum energy to the highest one of the grid.  It is refused
   at or above the highest energy, and is the whole integral below the lowest one.  The flux at
   a minimum between two grid energies follows the power law through its neighbours. *)
Above(v) == {i \in 0..(Size("energy") - 1) : QLt(v, Grid("energy", i))}
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
Integral(v) == [ok |-> \A i \in 1..Len(v) : Above(v[i]) # {},
                v |-> v,
                \* the first grid energy above the minimum, and whether there is one at or below it
                from |-> [i \in 1..Len(v) |-> IF Above(v[i]) = {} THEN -1 ELSE Lowest(Above(v[i]))]]
ASSUME PrintT(ToJson([minima |-> {Integral(v) : v \in Minima}]))

(* ---- where the members of a request lie *)
Locate(d, x, m) == LET s == Pick(d, x, m) IN <<s.i, s.w>>
LocateShell(x, m, t) == LET g(i) == Radius(t, i)
                        IN IF x.k # "value" THEN Locate("shell", x, m) ELSE IF Inside(Size("shell"), g, x.v[m]) THEN LET s == Spot(Size("shell"), g, x.v[m]) IN <<s.i, s.w>> ELSE <<-1, QZero>>
Picks(c, f) == [i \in 1..Len(Dims(c)) |->
  LET d == Dims(c)[i] IN
  IF d = "shell" THEN [dim |-> d, shells |-> [m \in 1..Number(d, f[d]) |-> [t \in 1..Sizes[1] |-> LocateShell(f[d], m, t - 1)]], at |-> <<>>]
  ELSE [dim |-> d, shells |-> <<>>, at |-> [m \in 1..Number(d, f[d]) |-> Locate(d, f[d], m)]]]
Where == PrintT(ToJson([class |-> class', req |-> [i \in 1..Len(Dims(class')) |-> req'[Dims(class')[i]]],
  res |-> [ok |-> res'.ok, axes |-> res'.axes], picks |-> IF res'.ok THEN Picks(class', req') ELSE <<>>]))
=============================================================================
