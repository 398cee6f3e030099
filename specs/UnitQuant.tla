----------------------------- MODULE UnitQuant -----------------------------
(* What each physical quantity is, in each metric system: the dimension of an
   expression in coherent units (sizes are irrelevant here).  The second
   expression is the Gaussian one where the Gaussian quantity is defined
   differently (rationalization, Gaussian magnetism).                        *)
EXTENDS UnitDefs, Json
QTab == <<
  <<"acceleration", <<E("m",1), E("s",-2)>>, <<E("m",1), E("s",-2)>>>>,
  <<"amount", <<E("mol",1)>>, <<E("mol",1)>>>>,
  <<"area", <<E("m",2)>>, <<E("m",2)>>>>,
  <<"capacitance", <<E("F",1)>>, <<E("F",1)>>>>,
  <<"charge", <<E("C",1)>>, <<E("C",1)>>>>,
  <<"charge density", <<E("C",1), E("m",-3)>>, <<E("C",1), E("m",-3)>>>>,
  <<"conductance", <<E("S",1)>>, <<E("S",1)>>>>,
  <<"conductivity", <<E("S",1), E("m",-1)>>, <<E("S",1), E("m",-1)>>>>,
  <<"current", <<E("A",1)>>, <<E("A",1)>>>>,
  <<"current density", <<E("A",1), E("m",-2)>>, <<E("A",1), E("m",-2)>>>>,
  <<"displacement", <<E("C",1), E("m",-2)>>, <<E("C",1), E("m",-2)>>>>,
  <<"dosage", <<E("Gy",1)>>, <<E("Gy",1)>>>>,
  <<"electric charge", <<E("C",1)>>, <<E("C",1)>>>>,
  <<"electric field", <<E("V",1), E("m",-1)>>, <<E("V",1), E("m",-1)>>>>,
  <<"electromotance", <<E("V",1)>>, <<E("V",1)>>>>,
  <<"energy", <<E("J",1)>>, <<E("J",1)>>>>,
  <<"energy density", <<E("J",1), E("m",-3)>>, <<E("J",1), E("m",-3)>>>>,
  <<"fluence", <<E("J",-1), E("m",-2)>>, <<E("J",-1), E("m",-2)>>>>,
  <<"flux", <<E("J",-1), E("m",-2), E("s",-1)>>, <<E("J",-1), E("m",-2), E("s",-1)>>>>,
  <<"force", <<E("N",1)>>, <<E("N",1)>>>>,
  <<"frequency", <<E("Hz",1)>>, <<E("Hz",1)>>>>,
  <<"identity", <<>>, <<>>>>,
  <<"illuminance", <<E("lx",1)>>, <<E("lx",1)>>>>,
  <<"impedance", <<E("Ω",1)>>, <<E("Ω",1)>>>>,
  <<"inductance", <<E("H",1)>>, <<E("H",1)>>>>,
  <<"induction", <<E("T",1)>>, <<E("T",1)>>>>,
  <<"integral flux", <<E("m",-2), E("s",-1)>>, <<E("m",-2), E("s",-1)>>>>,
  <<"length", <<E("m",1)>>, <<E("m",1)>>>>,
  <<"luminous flux", <<E("lm",1)>>, <<E("lm",1)>>>>,
  <<"luminous intensity", <<E("cd",1)>>, <<E("cd",1)>>>>,
  <<"magnetic field", <<E("T",1)>>, <<E("T",1)>>>>,
  <<"magnetic flux", <<E("Wb",1)>>, <<E("Wb",1)>>>>,
  <<"magnetic induction", <<E("T",1)>>, <<E("T",1)>>>>,
  <<"magnetic intensity", <<E("A",1), E("m",-1)>>, <<E("Oe",1)>>>>,
  <<"magnetic moment", <<E("A",1), E("m",2)>>, <<E("Oe",1), E("m",3)>>>>,
  <<"magnetization", <<E("A",1), E("m",-1)>>, <<E("Oe",1)>>>>,
  <<"magnetomotance", <<E("A",1)>>, <<E("A",1)>>>>,
  <<"mass", <<E("g",1)>>, <<E("g",1)>>>>,
  <<"mass density", <<E("g",1), E("m",-3)>>, <<E("g",1), E("m",-3)>>>>,
  <<"mass number", <<>>, <<>>>>,
  <<"momentum", <<E("g",1), E("m",1), E("s",-1)>>, <<E("g",1), E("m",1), E("s",-1)>>>>,
  <<"momentum density", <<E("g",1), E("m",-2), E("s",-1)>>, <<E("g",1), E("m",-2), E("s",-1)>>>>,
  <<"number", <<>>, <<>>>>,
  <<"number density", <<E("m",-3)>>, <<E("m",-3)>>>>,
  <<"particle distribution", <<E("s",3), E("m",-6)>>, <<E("s",3), E("m",-6)>>>>,
  <<"particle fluence", <<E("J",-1), E("m",-2)>>, <<E("J",-1), E("m",-2)>>>>,
  <<"particle flux", <<E("J",-1), E("m",-2), E("s",-1)>>, <<E("J",-1), E("m",-2), E("s",-1)>>>>,
  <<"permeability", <<E("H",1), E("m",-1)>>, <<>>>>,
  <<"permittivity", <<E("F",1), E("m",-1)>>, <<>>>>,
  <<"plane angle", <<>>, <<>>>>,
  <<"polarization", <<E("C",1), E("m",-2)>>, <<E("C",1), E("m",-2)>>>>,
  <<"potential", <<E("V",1)>>, <<E("V",1)>>>>,
  <<"power", <<E("W",1)>>, <<E("W",1)>>>>,
  <<"power density", <<E("W",1), E("m",-3)>>, <<E("W",1), E("m",-3)>>>>,
  <<"pressure", <<E("Pa",1)>>, <<E("Pa",1)>>>>,
  <<"radioactivity", <<E("Bq",1)>>, <<E("Bq",1)>>>>,
  <<"rate", <<E("Hz",1)>>, <<E("Hz",1)>>>>,
  <<"ratio", <<>>, <<>>>>,
  <<"reluctance", <<E("A",1), E("Wb",-1)>>, <<E("m",-1)>>>>,
  <<"resistance", <<E("Ω",1)>>, <<E("Ω",1)>>>>,
  <<"resistivity", <<E("Ω",1), E("m",1)>>, <<E("Ω",1), E("m",1)>>>>,
  <<"temperature", <<E("K",1)>>, <<E("K",1)>>>>,
  <<"thermal conductivity", <<E("W",1), E("m",-1), E("K",-1)>>, <<E("W",1), E("m",-1), E("K",-1)>>>>,
  <<"time", <<E("s",1)>>, <<E("s",1)>>>>,
  <<"solid angle", <<>>, <<>>>>,
  <<"speed", <<E("m",1), E("s",-1)>>, <<E("m",1), E("s",-1)>>>>,
  <<"vector potential", <<E("Wb",1), E("m",-1)>>, <<E("Wb",1), E("m",-1)>>>>,
  <<"velocity", <<E("m",1), E("s",-1)>>, <<E("m",1), E("s",-1)>>>>,
  <<"viscosity", <<E("P",1)>>, <<E("P",1)>>>>,
  <<"volume", <<E("m",3)>>, <<E("m",3)>>>>,
  <<"vorticity", <<E("Hz",1)>>, <<E("Hz",1)>>>>,
  <<"wavenumber", <<E("m",-1)>>, <<E("m",-1)>>>>,
  <<"work", <<E("J",1)>>, <<E("J",1)>>>>
>>
DimsOf(x) == [i \in 1..7 |-> x[10 + i]]
ASSUME LET T == TLCEval(QTab) IN TLCSet(11, [i \in DOMAIN T |-> <<T[i][1], DimsOf(SIx(T[i][2])), DimsOf(CGx(T[i][3]))>>])
ASSUME \A i, j \in DOMAIN TLCGet(11) : TLCGet(11)[i][1] = TLCGet(11)[j][1] => i = j
VARIABLES k
Init == k \in DOMAIN TLCGet(11)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Q == TLCGet(11)[k]
Emit == PrintT(ToJson([q |-> Q[1], mks |-> Q[2], cgs |-> Q[3]]))
=============================================================================
