------------------------------- MODULE Atomic -------------------------------
(* Atomic species.  An element is known by its symbol or its mass; a charge  *)
(* is written as one sign per elementary charge.  The state is a list of     *)
(* species under construction and what was last read from it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Which,    \* the elements (by place in the table) to build species of
          Offsets,  \* distances, in units of 1e-6 nucleons, of given masses from the mass of the element
          Charges,
          MaxLen,
          Strays    \* masses which belong to no element

\* symbol, name, and mass in units of 1e-6 nucleons, lightest first
Table == <<
  <<"H", "Hydrogen", 1007970>>,
  <<"He", "Helium", 4002600>>,
  <<"Li", "Lithium", 6941000>>,
  <<"Be", "Beryllium", 9012180>>,
  <<"B", "Boron", 10810000>>,
  <<"C", "Carbon", 12011000>>,
  <<"N", "Nitrogen", 14006700>>,
  <<"O", "Oxygen", 15999400>>,
  <<"F", "Fluorine", 18998403>>,
  <<"Ne", "Neon", 20179000>>,
  <<"Na", "Sodium", 22989770>>,
  <<"Mg", "Magnesium", 24305000>>,
  <<"Al", "Aluminum", 26981540>>,
  <<"Si", "Silicon", 28085500>>,
  <<"P", "Phosphorus", 30973760>>,
  <<"S", "Sulfur", 32060000>>,
  <<"Cl", "Chlorine", 35453000>>,
  <<"K", "Potassium", 39098300>>,
  <<"Ar", "Argon", 39948000>>,
  <<"Ca", "Calcium", 40080000>>,
  <<"Sc", "Scandium", 44955900>>,
  <<"Ti", "Titanium", 47900000>>,
  <<"V", "Vanadium", 50941500>>,
  <<"Cr", "Chromium", 51996000>>,
  <<"Mn", "Manganese", 54938000>>,
  <<"Fe", "Iron", 55847000>>,
  <<"Ni", "Nickel", 58700000>>,
  <<"Co", "Cobalt", 58933200>>,
  <<"Cu", "Copper", 63546000>>,
  <<"Zn", "Zinc", 65380000>>,
  <<"Ga", "Gallium", 69720000>>,
  <<"Ge", "Germanium", 72590000>>,
  <<"As", "Arsenic", 74921600>>,
  <<"Se", "Selenium", 78960000>>,
  <<"Br", "Bromine", 79904000>>,
  <<"Kr", "Krypton", 83800000>>,
  <<"Rb", "Rubidium", 85467800>>,
  <<"Sr", "Strontium", 87620000>>,
  <<"Y", "Yttrium", 88905900>>,
  <<"Zr", "Zirconium", 91220000>>,
  <<"Nb", "Niobium", 92906400>>,
  <<"Mo", "Molybdenum", 95940000>>,
  <<"Tc", "Technetium", 98000000>>,
  <<"Ru", "Ruthenium", 101070000>>,
  <<"Rh", "Rhodium", 102905500>>,
  <<"Pd", "Palladium", 106400000>>,
  <<"Ag", "Silver", 107868000>>,
  <<"Cd", "Cadmium", 112410000>>,
  <<"In", "Indium", 114820000>>,
  <<"Sn", "Tin", 118690000>>,
  <<"Sb", "Antimony", 121750000>>,
  <<"I", "Iodine", 126904500>>,
  <<"Te", "Tellurium", 127600000>>,
  <<"Xe", "Xenon", 131300000>>,
  <<"Cs", "Cesium", 132905400>>,
  <<"Ba", "Barium", 137330000>>,
  <<"La", "Lanthanum", 138905500>>,
  <<"Ce", "Cerium", 140120000>>,
  <<"Pr", "Praseodymium", 140907700>>,
  <<"Nd", "Neodymium", 144240000>>,
  <<"Pm", "Promethium", 145000000>>,
  <<"Sm", "Samarium", 150400000>>,
  <<"Eu", "Europium", 151960000>>,
  <<"Gd", "Gadolinium", 157250000>>,
  <<"Tb", "Terbium", 158925400>>,
  <<"Dy", "Dysprosium", 162500000>>,
  <<"Ho", "Holmium", 164930400>>,
  <<"Er", "Erbium", 167260000>>,
  <<"Tm", "Thulium", 168934200>>,
  <<"Yb", "Ytterbium", 173040000>>,
  <<"Lu", "Lutetium", 174967000>>,
  <<"Hf", "Hafnium", 178490000>>,
  <<"Ta", "Tantalum", 180947900>>,
  <<"W", "Tungsten", 183850000>>,
  <<"Re", "Rhenium", 186207000>>,
  <<"Os", "Osmium", 190200000>>,
  <<"Ir", "Iridium", 192220000>>,
  <<"Pt", "Platinum", 195090000>>,
  <<"Au", "Gold", 196966500>>,
  <<"Hg", "Mercury", 200590000>>,
  <<"Tl", "Thallium", 204370000>>,
  <<"Pb", "Lead", 207200000>>,
  <<"Bi", "Bismuth", 208980400>>,
  <<"Po", "Polonium", 209000000>>,
  <<"At", "Astatine", 210000000>>,
  <<"Rn", "Radon", 222000000>>,
  <<"Fr", "Francium", 223000000>>,
  <<"Ra", "Radium", 226025400>>,
  <<"Ac", "Actinium", 227027800>>,
  <<"Pa", "Protactinium", 231035900>>,
  <<"Th", "Thorium", 232038100>>,
  <<"Np", "Neptunium", 237048200>>,
  <<"U", "Uranium", 238029000>>,
  <<"Pu", "Plutonium", 242000000>>,
  <<"Am", "Americium", 243000000>>,
  <<"Bk", "Berkelium", 247000000>>,
  <<"Cm", "Curium", 247000000>>,
  <<"No", "Nobelium", 250000000>>,
  <<"Cf", "Californium", 251000000>>,
  <<"Es", "Einsteinium", 252000000>>,
  <<"Hs", "Hassium", 255000000>>,
  <<"Mt", "Meitnerium", 256000000>>,
  <<"Fm", "Fermium", 257000000>>,
  <<"Md", "Mendelevium", 258000000>>,
  <<"Lr", "Lawrencium", 260000000>>,
  <<"Rf", "Rutherfordium", 261000000>>,
  <<"Bh", "Bohrium", 262000000>>,
  <<"Db", "Dubnium", 262000000>>,
  <<"Sg", "Seaborgium", 263000000>>>>
Places == 1..Len(Table)
Symbol(i) == Table[i][1]
Mass(i) == Table[i][3]

Abs(x) == IF x < 0 THEN -x ELSE x
One == 1000000
Nearest(m) == (m + One \div 2) \div One      \* the number of nucleons
\* a mass halfway between two integers: only that very mass is sure to mean the element
Halfway(m) == m % One \in ((One \div 2) - 1)..((One \div 2) + 1)
Unclear(m) == \/ Halfway(m) /\ \A i \in Places : Mass(i) /= m
              \/ \E i \in Places : Halfway(Mass(i)) /\ m /= Mass(i) /\ Abs(m - Mass(i)) <= One
Alike(m) == {i \in Places : Nearest(Mass(i)) = Nearest(m)}
Closest(m) == {i \in Alike(m) : \A j \in Alike(m) : Abs(Mass(i) - m) <= Abs(Mass(j) - m)}
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE <<s>> \o Repeat(s, n - 1)
Signs(q) == IF q >= 0 THEN Repeat("+", q) ELSE Repeat("-", -q)
Named(i, q) == [symbol |-> Symbol(i), signs |-> Signs(q), name |-> Table[i][2], mass |-> Mass(i), charge |-> q]
\* what a mass and a charge stand for
Stands(m, q) ==
  IF Unclear(m) THEN [out |-> "unspecified"]
  ELSE IF Alike(m) = {} THEN [out |-> "refused"]
  ELSE IF Cardinality(Closest(m)) > 1 THEN [out |-> "unspecified"]
  ELSE [out |-> "species", s |-> Named(CHOOSE i \in Closest(m) : TRUE, q)]

VARIABLES built   \* a sequence of [m, q, r]
Add(m, q) == /\ Len(built) < MaxLen
             /\ Stands(m, q).out /= "unspecified"
             /\ built' = Append(built, [m |-> m, q |-> q, r |-> Stands(m, q)])
Init == built = <<>>
Next == \/ \E i \in Which : \E d \in Offsets : \E q \in Charges : Add(Mass(i) + d, q)
        \/ \E i \in Which : \E q \in Charges : Add(One * Nearest(Mass(i)), q)
        \/ \E m \in Strays : \E q \in Charges : Add(m, q)
Spec == Init /\ [][Next]_built
Emit == PrintT(ToJson([built |-> built']))
ASSUME PrintT(ToJson([table |-> Table]))
-----------------------------------------------------------------------------
\* laws: symbols are unique; a mass which belongs to one element only finds it; the table is ordered by mass
ASSUME \A i, j \in Places : i < j => Symbol(i) /= Symbol(j) /\ Table[i][2] /= Table[j][2] /\ Mass(i) <= Mass(j)
ASSUME \A i \in Places : Cardinality({j \in Places : Mass(j) = Mass(i)}) = 1 => Closest(Mass(i)) = {i}
TypeOK == \A n \in DOMAIN built : built[n].r.out = "species" => Len(built[n].r.s.signs) = Abs(built[n].q)
=============================================================================
