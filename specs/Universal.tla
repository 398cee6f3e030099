----------------------------- MODULE Universal -----------------------------
(* The universal constants: what their units denote in each metric system and
   the relations that define some of them in terms of others.  The numerical
   values come from the implementation; this specification says how the two
   values of one constant, and the values of related constants, must be
   related.                                                                  *)
EXTENDS UnitDefs, Json
P_(pre, s, n) == <<PreNo(pre), AtomNo(s), n>>
Kg == P_("k", "g", 1)
CmU(n) == P_("c", "m", n)
\* <<name, mks unit, cgs unit, value(cgs) / value(mks) where the quantity is
\*   defined differently in the two systems (else <<>>)>>
CTab == <<
  <<"pi", <<>>, <<>>, <<>>>>,
  <<"k", <<E("J",1), E("K",-1)>>, <<E("erg",1), E("K",-1)>>, <<>>>>,
  <<"e", <<E("C",1)>>, <<E("statC",1)>>, <<>>>>,
  <<"me", <<Kg>>, <<E("g",1)>>, <<>>>>,
  <<"mp", <<Kg>>, <<E("g",1)>>, <<>>>>,
  <<"amu", <<Kg>>, <<E("g",1)>>, <<>>>>,
  <<"G", <<E("m",3), E("s",-2), P_("k","g",-1)>>, <<E("dyn",1), CmU(2), E("g",-2)>>, <<>>>>,
  <<"g", <<E("m",1), E("s",-2)>>, <<CmU(1), E("s",-2)>>, <<>>>>,
  <<"h", <<E("J",1), E("s",1)>>, <<E("erg",1), E("s",1)>>, <<>>>>,
  <<"c", <<E("m",1), E("s",-1)>>, <<CmU(1), E("s",-1)>>, <<>>>>,
  <<"epsilon0", <<E("F",1), E("m",-1)>>, <<>>, Special[7][3]>>,
  <<"mu0", <<E("H",1), E("m",-1)>>, <<>>, Special[6][3]>>,
  <<"Rinfinity", <<E("m",-1)>>, <<CmU(-1)>>, <<>>>>,
  <<"a0", <<E("m",1)>>, <<CmU(1)>>, <<>>>>,
  <<"re", <<E("m",1)>>, <<CmU(1)>>, <<>>>>,
  <<"alpha", <<>>, <<>>, <<>>>>,
  <<"c1", <<E("W",1), E("m",2)>>, <<E("erg",1), CmU(2), E("s",-1)>>, <<>>>>,
  <<"c2", <<E("m",1), E("K",1)>>, <<CmU(1), E("K",1)>>, <<>>>>,
  <<"sigma", <<E("W",1), E("m",-2), E("K",-4)>>, <<E("erg",1), E("s",-1), CmU(-2), E("K",-4)>>, <<>>>>,
  <<"eV", <<E("J",1)>>, <<E("erg",1)>>, <<>>>>,
  <<"MeV", <<E("J",1)>>, <<E("erg",1)>>, <<>>>>,
  <<"H+", <<E("J",1)>>, <<E("erg",1)>>, <<>>>>,
  <<"au", <<E("m",1)>>, <<CmU(1)>>, <<>>>>
>>
pi_(n) == Num("pi", n)
two(n) == Num("2", n)
\* <<name, product of powers of constants, numerical factor, unit>>: the value of
\* name is that of factor * product (* one unit)
RMks == <<
  <<"alpha", << <<"e",2>>, <<"epsilon0",-1>>, <<"h",-1>>, <<"c",-1>> >>, two(-1), <<>>>>,
  <<"a0", << <<"epsilon0",1>>, <<"h",2>>, <<"me",-1>>, <<"e",-2>> >>, pi_(-1), <<>>>>,
  <<"re", << <<"e",2>>, <<"epsilon0",-1>>, <<"me",-1>>, <<"c",-2>> >>, Mul(two(-2), pi_(-1)), <<>>>>,
  <<"Rinfinity", << <<"me",1>>, <<"e",4>>, <<"epsilon0",-2>>, <<"h",-3>>, <<"c",-1>> >>, two(-3), <<>>>>,
  <<"mu0", << <<"epsilon0",-1>>, <<"c",-2>> >>, One, <<>>>>,
  <<"eV", << <<"e",1>> >>, One, <<E("V",1)>>>>
>>
RCgs == <<
  <<"alpha", << <<"e",2>>, <<"h",-1>>, <<"c",-1>> >>, Mul(two(1), pi_(1)), <<>>>>,
  <<"a0", << <<"h",2>>, <<"me",-1>>, <<"e",-2>> >>, Mul(two(-2), pi_(-2)), <<>>>>,
  <<"re", << <<"e",2>>, <<"me",-1>>, <<"c",-2>> >>, One, <<>>>>,
  <<"Rinfinity", << <<"me",1>>, <<"e",4>>, <<"h",-3>>, <<"c",-1>> >>, Mul(two(1), pi_(2)), <<>>>>,
  <<"mu0", << <<"epsilon0",1>> >>, One, <<>>>>,
  <<"eV", << <<"e",1>> >>, One, <<E("V",1)>>>>
>>
\* the same in both systems
RBoth == <<
  <<"c1", << <<"h",1>>, <<"c",2>> >>, Mul(two(1), pi_(1)), <<>>>>,
  <<"c2", << <<"h",1>>, <<"c",1>>, <<"k",-1>> >>, One, <<>>>>,
  <<"sigma", << <<"k",4>>, <<"h",-3>>, <<"c",-2>> >>, Mul(Mul(two(1), pi_(5)), V(<< <<"3",-1>>, <<"5",-1>> >>)), <<>>>>,
  <<"MeV", << <<"eV",1>> >>, Ten(6), <<>>>>,
  <<"a0", << <<"re",1>>, <<"alpha",-2>> >>, One, <<>>>>,
  <<"Rinfinity", << <<"alpha",1>>, <<"a0",-1>> >>, Mul(two(-2), pi_(-1)), <<>>>>,
  <<"Rinfinity", << <<"alpha",2>>, <<"me",1>>, <<"c",1>>, <<"h",-1>> >>, two(-1), <<>>>>,
  <<"H+", << <<"Rinfinity",1>>, <<"h",1>>, <<"c",1>> >>, One, <<>>>>,
  <<"au", <<>>, One, <<E("au",1)>>>>,
  <<"eV", <<>>, One, <<E("eV",1)>>>>,
  <<"c", <<>>, c(1), <<CmU(1), E("s",-1)>>>>,
  <<"pi", <<>>, pi_(1), <<>>>>
>>
ASSUME TLCSet(11, TLCEval(CTab)) /\ TLCSet(12, TLCEval(RMks \o RBoth)) /\ TLCSet(13, TLCEval(RCgs \o RBoth))
Con(s) == TLCGet(11)[CHOOSE i \in DOMAIN TLCGet(11) : TLCGet(11)[i][1] = s]
DimV(x) == [i \in 1..7 |-> x[10 + i]]
RECURSIVE Prod(_, _)
\* the units of a product of constants; system 2 = mks, 3 = cgs
Prod(p, sys) == IF p = <<>> THEN One
  ELSE Mul(Pow(IF sys = 2 THEN SIx(Con(Head(p)[1])[2]) ELSE CGx(Con(Head(p)[1])[3]), Head(p)[2]), Prod(Tail(p), sys))
\* ratio of the unit of the right-hand side to the unit of the left-hand side
RUnit(r, sys) == IF sys = 2
  THEN Div(Mul(Prod(r[2], 2), SIx(r[4])), SIx(Con(r[1])[2]))
  ELSE Div(Mul(Prod(r[2], 3), CGx(r[4])), CGx(Con(r[1])[3]))
VARIABLES kind, k
vars == <<kind, k>>
Init == \/ kind = "constant" /\ k \in DOMAIN TLCGet(11)
        \/ kind = "mks" /\ k \in DOMAIN TLCGet(12)
        \/ kind = "cgs" /\ k \in DOMAIN TLCGet(13)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Cc == TLCGet(11)[k]
Rr == IF kind = "mks" THEN TLCGet(12)[k] ELSE TLCGet(13)[k]
Sys == IF kind = "mks" THEN 2 ELSE 3
\* every relation is dimensionally homogeneous in its system
Homogeneous == kind # "constant" => Pure(RUnit(Rr, Sys))
\* the two units of a constant have one dimension, unless it is defined differently
OneQuantity == (kind = "constant" /\ Cc[4] = <<>>) => Same(CGx(Cc[2]), CGx(Cc[3]))
Words(e) == [i \in 1..Len(e) |-> <<Prefixes[e[i][1]][1], Atom(e[i][2]).s, e[i][3]>>]
Emit == PrintT(ToJson(
  IF kind = "constant"
  THEN [kind |-> kind, name |-> Cc[1], mks |-> SIx(Cc[2]), cgs |-> CGx(Cc[3]),
        ratio |-> IF Cc[4] = <<>> THEN Div(CGx(Cc[2]), CGx(Cc[3])) ELSE Cc[4]]
  ELSE [kind |-> kind, name |-> Rr[1], prod |-> Rr[2], factor |-> Mul(Rr[3], RUnit(Rr, Sys))]))
=============================================================================
