----------------------------- MODULE UnitDefs ------------------------------
(* What every named unit of eprempy.metric denotes: a size and a dimension in
   the coherent SI ("si": kg m s A K mol cd) and, independently, in Gaussian
   cgs ("cg": g cm s K mol cd).  Sizes and dimensions together form one free
   abelian group, written additively as functions to integers; dimension
   exponents are doubled so that the half powers of Gaussian units are
   integers.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* c = 2.99792458e10 (speed of light, cm/s), qe (coulomb per elementary
\* charge), au, Rs (metre), mu (kg per atomic mass unit)
GenName == <<"2", "3", "5", "37", "pi", "c", "qe", "au", "Rs", "mu", "M", "L", "T", "I", "H", "N", "J">>
Gens == 1..17
Dims == 11..17
One == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Mul(x, y) == [g \in Gens |-> x[g] + y[g]]
Div(x, y) == [g \in Gens |-> x[g] - y[g]]
Pow(x, n) == [g \in Gens |-> n * x[g]]
\* from <<generator, exponent>> pairs
V(s) == [g \in Gens |-> IF \E i \in DOMAIN s : s[i][1] = GenName[g]
                        THEN s[CHOOSE i \in DOMAIN s : s[i][1] = GenName[g]][2] ELSE 0]
D(m, l, t, i) == V(<< <<"M", 2*m>>, <<"L", 2*l>>, <<"T", 2*t>>, <<"I", 2*i>> >>)
G(m2, l2, t2) == V(<< <<"M", m2>>, <<"L", l2>>, <<"T", t2>> >>)     \* doubled already
Ten(k) == V(<< <<"2", k>>, <<"5", k>> >>)
Num(g, k) == V(<< <<g, k>> >>)
Times(x, y) == Mul(x, y)
Same(x, y) == \A d \in Dims : x[d] = y[d]
Pure(x) == \A d \in Dims : x[d] = 0

Cm == D(0, 1, 0, 0)                      \* as a cgs denotation: one centimetre
Gm == D(1, 0, 0, 0)
Sec == D(0, 0, 1, 0)
Erg == D(1, 2, -2, 0)
c(k) == Num("c", k)
\* [s: symbol, n: name, q: quantity, si, cg]
U(s, n, q, si, cg) == [s |-> s, n |-> n, q |-> q, si |-> si, cg |-> cg]
B(s, n, q, si, shift) == U(s, n, q, si, Mul(si, shift))    \* mechanical: the same dimension in both
Atoms == (<<
  B("m", "meter", "length", D(0,1,0,0), Ten(2)),
  B("au", "astronomical unit", "length", Mul(D(0,1,0,0), Num("au", 1)), Ten(2)),
  B("Rs", "solar radius", "length", Mul(D(0,1,0,0), Num("Rs", 1)), Ten(2)),
  B("g", "gram", "mass", Mul(D(1,0,0,0), Ten(-3)), Ten(3)),
  B("nuc", "nucleon", "mass number", One, One),
  B("amu", "atomic mass unit", "mass number", One, One),
  B("s", "second", "time", D(0,0,1,0), One),
  B("min", "minute", "time", Mul(D(0,0,1,0), V(<< <<"2",2>>, <<"3",1>>, <<"5",1>> >>)), One),
  B("h", "hour", "time", Mul(D(0,0,1,0), V(<< <<"2",4>>, <<"3",2>>, <<"5",2>> >>)), One),
  B("d", "day", "time", Mul(D(0,0,1,0), V(<< <<"2",7>>, <<"3",3>>, <<"5",2>> >>)), One),
  U("A", "ampere", "current", D(0,0,0,1), Mul(Mul(c(1), Ten(-1)), G(1,3,-4))),
  B("K", "kelvin", "temperature", V(<< <<"H",2>> >>), One),
  B("mol", "mole", "amount", V(<< <<"N",2>> >>), One),
  B("#", "count", "number", One, One),
  B("cd", "candela", "luminous intensity", V(<< <<"J",2>> >>), One),
  B("rad", "radian", "plane angle", One, One),
  B("deg", "degree", "plane angle", V(<< <<"pi",1>>, <<"2",-2>>, <<"3",-2>>, <<"5",-1>> >>), One),
  B("sr", "steradian", "solid angle", One, One),
  B("Hz", "hertz", "frequency", D(0,0,-1,0), One),
  B("J", "joule", "energy", D(1,2,-2,0), Ten(7)),
  B("erg", "erg", "energy", Mul(D(1,2,-2,0), Ten(-7)), Ten(7)),
  B("eV", "electronvolt", "energy", Mul(D(1,2,-2,0), Num("qe",1)), Ten(7)),
  B("N", "newton", "force", D(1,1,-2,0), Ten(5)),
  B("dyn", "dyne", "force", Mul(D(1,1,-2,0), Ten(-5)), Ten(5)),
  B("Pa", "pascal", "pressure", D(1,-1,-2,0), Ten(1)),
  B("W", "watt", "power", D(1,2,-3,0), Ten(7)),
  U("C", "coulomb", "charge", D(0,0,1,1), Mul(Mul(c(1), Ten(-1)), G(1,3,-2))),
  U("statC", "statcoulomb", "charge", Mul(Mul(c(-1), Ten(1)), D(0,0,1,1)), G(1,3,-2)),
  U("statA", "statampere", "current", Mul(Mul(c(-1), Ten(1)), D(0,0,0,1)), G(1,3,-4)),
  U("statV", "statvolt", "potential", Mul(Mul(c(1), Ten(-8)), D(1,2,-3,-1)), G(1,1,-2)),
  U("e", "fundamental charge", "charge", Mul(Num("qe",1), D(0,0,1,1)),
    Mul(Mul(Num("qe",1), Mul(c(1), Ten(-1))), G(1,3,-2))),
  U("V", "volt", "potential", D(1,2,-3,-1), Mul(Mul(c(-1), Ten(8)), G(1,1,-2))),
  U("Ω", "ohm", "resistance", D(1,2,-3,-2), Mul(Mul(c(-2), Ten(9)), G(0,-2,2))),
  U("S", "seimens", "conductance", D(-1,-2,3,2), Mul(Mul(c(2), Ten(-9)), G(0,2,-2))),
  U("F", "farad", "capacitance", D(-1,-2,4,2), Mul(Mul(c(2), Ten(-9)), G(0,2,0))),
  U("Wb", "weber", "magnetic flux", D(1,2,-2,-1), Mul(Ten(8), G(1,3,-2))),
  U("Mx", "maxwell", "magnetic flux", Mul(Ten(-8), D(1,2,-2,-1)), G(1,3,-2)),
  U("Oe", "Oersted", "magnetic intensity",
    Mul(V(<< <<"pi",-1>>, <<"2",1>>, <<"5",3>> >>), D(0,-1,0,1)), G(1,-1,-2)),
  U("H", "henry", "inductance", D(1,2,-2,-2), Mul(Mul(c(-2), Ten(9)), G(0,-2,4))),
  U("T", "tesla", "magnetic induction", D(1,0,-2,-1), Mul(Ten(4), G(1,-1,-2))),
  U("G", "gauss", "magnetic induction", Mul(Ten(-4), D(1,0,-2,-1)), G(1,-1,-2)),
  B("lm", "lumen", "luminous flux", V(<< <<"J",2>> >>), One),
  B("lx", "lux", "illuminance", V(<< <<"J",2>>, <<"L",-4>> >>), Ten(-4)),
  B("Bq", "becquerel", "radioactivity", D(0,0,-1,0), One),
  B("Ci", "Curie", "radioactivity", Mul(V(<< <<"37",1>>, <<"2",9>>, <<"5",9>> >>), D(0,0,-1,0)), One),
  B("Gy", "gray", "dosage", D(0,2,-2,0), Ten(4)),
  B("P", "poise", "viscosity", Mul(Ten(-1), D(1,-1,-1,0)), Ten(1))
>>)
NA == Len(Atoms)
Prefixes == << <<"Y","yotta",24>>, <<"Z","zetta",21>>, <<"E","exa",18>>, <<"P","peta",15>>,
  <<"T","tera",12>>, <<"G","giga",9>>, <<"M","mega",6>>, <<"k","kilo",3>>, <<"h","hecto",2>>,
  <<"da","deca",1>>, <<"","",0>>, <<"d","deci",-1>>, <<"c","centi",-2>>, <<"m","milli",-3>>,
  <<"μ","micro",-6>>, <<"n","nano",-9>>, <<"p","pico",-12>>, <<"f","femto",-15>>,
  <<"a","atto",-18>>, <<"z","zepto",-21>>, <<"y","yocto",-24>> >>
NoP == 11
AtomNo(sym) == CHOOSE i \in 1..NA : Atoms[i].s = sym
PreNo(sym) == CHOOSE i \in 1..Len(Prefixes) : Prefixes[i][1] = sym
NP == Len(Prefixes)
\* tabulated once
SITab == TLCEval([p \in 1..NP |-> [a \in 1..NA |-> Mul(Ten(Prefixes[p][3]), Atoms[a].si)]])
CGTab == TLCEval([p \in 1..NP |-> [a \in 1..NA |-> Mul(Ten(Prefixes[p][3]), Atoms[a].cg)]])
\* (registers, because TLC would evaluate these definitions at every use)
ASSUME TLCSet(1, SITab) /\ TLCSet(2, CGTab) /\ TLCSet(3, Atoms)
Atom(a) == TLCGet(3)[a]
SI(p, a) == TLCGet(1)[p][a]
CG(p, a) == TLCGet(2)[p][a]

(* A unit expression is a sequence of <<prefix, atom, exponent>>. *)
RECURSIVE SIx(_), CGx(_)
SIx(u) == IF u = <<>> THEN One ELSE Mul(Pow(SI(Head(u)[1], Head(u)[2]), Head(u)[3]), SIx(Tail(u)))
CGx(u) == IF u = <<>> THEN One ELSE Mul(Pow(CG(Head(u)[1], Head(u)[2]), Head(u)[3]), CGx(Tail(u)))

(* The metric systems in which a unit is defined. *)
MksOnly == {"A","J","N","Pa","W","C","V","Ω","S","F","Wb","H","T","Bq","Gy"}
CgsOnly == {"erg","dyn","statC","statA","statV","Mx","Oe","G","Ci","P"}
\* electromagnetic units whose SI denotation is not what they are in cgs
Gaussian == {"statC","statA","statV","Mx","Oe","G"}

(* Conversions between rationalized SI quantities and their Gaussian
   counterparts, and the Gaussian units that have no name of their own:
   <<from, to, factor>>.                                                     *)
Special == <<
  <<"S",     "cm / s",  Mul(Num("c",2), Ten(-9))>>,
  <<"F",     "cm",      Mul(Num("c",2), Ten(-9))>>,
  <<"ohm",   "s / cm",  Mul(Num("c",-2), Ten(9))>>,
  <<"H",     "s^2 / cm", Mul(Num("c",-2), Ten(9))>>,
  <<"A / m", "Oe",      V(<< <<"pi",1>>, <<"2",2-3>>, <<"5",-3>> >>)>>,
  <<"H / m", "1",       V(<< <<"pi",-1>>, <<"2",7-2>>, <<"5",7>> >>)>>,
  <<"F / m", "1",       Mul(Num("c",2), V(<< <<"pi",1>>, <<"2",2-11>>, <<"5",-11>> >>))>>,
  <<"A / Wb", "1 / cm", V(<< <<"pi",1>>, <<"2",2-9>>, <<"5",-9>> >>)>>,
  <<"Wb / m", "G * cm", Ten(6)>>,
  <<"nuc",   "kg",      Num("mu",1)>>,
  <<"amu",   "g",       Mul(Num("mu",1), Ten(3))>>
>>

Show(x) == x

---------------------------------------------------------------------------
(* The table is coherent: the defining relations of the derived units hold in
   both systems, so that any chain of conversions multiplies out.            *)
A_(s) == Atoms[AtomNo(s)]
Rel(lhs, rhs) == SIx(lhs) = SIx(rhs) /\ CGx(lhs) = CGx(rhs)
E(s, n) == <<NoP, AtomNo(s), n>>
k_ == <<PreNo("k"), AtomNo("g"), 1>>
TableCoherent ==
  /\ Rel(<<E("J",1)>>, <<k_, E("m",2), E("s",-2)>>)
  /\ Rel(<<E("N",1)>>, <<k_, E("m",1), E("s",-2)>>)
  /\ Rel(<<E("Pa",1)>>, <<E("N",1), E("m",-2)>>)
  /\ Rel(<<E("W",1)>>, <<E("J",1), E("s",-1)>>)
  /\ Rel(<<E("C",1)>>, <<E("A",1), E("s",1)>>)
  /\ Rel(<<E("V",1)>>, <<E("W",1), E("A",-1)>>)
  /\ Rel(<<E("Ω",1)>>, <<E("V",1), E("A",-1)>>)
  /\ Rel(<<E("S",1)>>, <<E("Ω",-1)>>)
  /\ Rel(<<E("F",1)>>, <<E("C",1), E("V",-1)>>)
  /\ Rel(<<E("H",1)>>, <<E("Ω",1), E("s",1)>>)
  /\ Rel(<<E("statC",1)>>, <<E("statA",1), E("s",1)>>)
  /\ Rel(<<E("statV",1)>>, <<E("erg",1), E("statC",-1)>>)
  /\ Rel(<<E("e",1)>>, <<E("C",1), E("eV",1), E("J",-1)>>)
  /\ Rel(<<E("Mx",1)>>, <<E("G",1), <<PreNo("c"), AtomNo("m"), 2>>>>)
  /\ Rel(<<E("Wb",1)>>, <<E("T",1), E("m",2)>>)
  /\ Rel(<<E("Gy",1)>>, <<E("J",1), <<PreNo("k"), AtomNo("g"), -1>>>>)
  /\ CGx(<<E("G",1)>>) = CGx(<<E("Oe",1)>>)
  /\ SIx(<<E("Wb",1)>>) = SIx(<<E("V",1), E("s",1)>>)
ASSUME TableCoherent
=============================================================================
