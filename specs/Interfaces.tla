----------------------------- MODULE Interfaces -----------------------------
(* What the interfaces to one data file report (P30): the axes, the arrays and the grid of the file, and the axes,  *)
(* position and quantities of an observer.  The file holds its quantities in units of its own; an interface reports *)
(* them in the units of the metric system it was made for.  What it reports is a function of the file, the system   *)
(* and the part that is asked for, not of what was asked before.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Systems, Kinds, Depth
VARIABLES world, at, last
vars == <<world, at, last>>

Axis == {"time", "shell", "species", "energy", "mu"}
TS == <<"time", "shell">>
\* name -> variable of the file, its dimensions, its quantity
Stored(name, var, dims, quantity) == [name |-> name, var |-> var, dims |-> dims, quantity |-> quantity]
Table == {
  Stored("time", "time", <<"time">>, "time"), Stored("energy", "egrid", <<"energy">>, "energy"), Stored("v", "vgrid", <<"energy">>, "velocity"),
  Stored("mu", "mu", <<"mu">>, "none"), Stored("mass", "mass", <<"species">>, "mass"), Stored("charge", "charge", <<"species">>, "charge"),
  Stored("r", "R", TS, "length"), Stored("theta", "T", TS, "angle"), Stored("phi", "P", TS, "angle"),
  Stored("br", "Br", TS, "field"), Stored("btheta", "Bt", TS, "field"), Stored("bphi", "Bp", TS, "field"),
  Stored("ur", "Vr", TS, "velocity"), Stored("utheta", "Vt", TS, "velocity"), Stored("uphi", "Vp", TS, "velocity"),
  Stored("rho", "Rho", TS, "density"), Stored("f", "Dist", <<"time", "shell", "species", "energy", "mu">>, "distribution"),
  Stored("flux", "flux", <<"time", "shell", "species", "energy">>, "flux")}
Derived == {"x", "y", "z", "bmag", "umag", "ubmag", "angle", "upara", "udotb", "uperp", "divu", "rigidity", "mfp", "ar", "average energy",
            "energy density", "fluence", "intflux"}
\* length, mass, time, charge: what a quantity is measured in
Base == [mks |-> [length |-> "m", time |-> "s", mass |-> "kg", charge |-> "C", energy |-> "J", velocity |-> "m / s", field |-> "T", density |-> "m^-3",
                  distribution |-> "s^3 / m^6", flux |-> "J^-1 s^-1 sr^-1 m^-2", angle |-> "rad", none |-> "1"],
         cgs |-> [length |-> "cm", time |-> "s", mass |-> "g", charge |-> "statC", energy |-> "erg", velocity |-> "cm / s", field |-> "G", density |-> "cm^-3",
                  distribution |-> "s^3 / cm^6", flux |-> "erg^-1 s^-1 sr^-1 cm^-2", angle |-> "rad", none |-> "1"]]
Unit(s, sys) == Base[sys][s.quantity]
Row(name) == CHOOSE s \in Table : s.name = name
Have(kind) == {s \in Table : (s.name = "f" => kind = "dist") /\ (s.name = "flux" => kind = "flux")}

Array(s, sys) == [is |-> "array", var |-> s.var, dims |-> s.dims, unit |-> Unit(s, sys), quantity |-> s.quantity]
AxisOf(d, sys) ==
  CASE d = "shell" -> [is |-> "points", var |-> "shell", unit |-> "", quantity |-> "none"]
    [] d = "species" -> [is |-> "symbols", var |-> "mass", unit |-> "", quantity |-> "none"]
    [] OTHER -> [is |-> "coordinates", var |-> Row(d).var, unit |-> Unit(Row(d), sys), quantity |-> Row(d).quantity]
Shells(x) == Array(x, "mks").dims
Plural == [times |-> "time", species |-> "species", energies |-> "energy", mus |-> "mu", shells |-> "shell"]
-----------------------------------------------------------------------------
\* the interfaces, and what each answers
Answer(w, via, part) ==
  CASE via = "axes" ->
         IF part \in Axis THEN AxisOf(part, w.sys)
         ELSE IF part = "names" THEN [is |-> "names", names |-> Axis]
         ELSE [is |-> "refused"]
    [] via = "arrays" ->
         IF part = "hasdist" THEN [is |-> "flag", value |-> w.kind = "dist"]
         ELSE IF part = "hasflux" THEN [is |-> "flag", value |-> w.kind = "flux"]
         ELSE IF Row(part) \in Have(w.kind) THEN Array(Row(part), w.sys)
         ELSE [is |-> "nothing"]
    [] via = "grid" -> Array(Row(part), w.sys)
    [] via = "observer" ->
         IF part \in DOMAIN Plural THEN
           IF part = "shells" /\ w.type = "point" THEN [is |-> "refused"] ELSE AxisOf(Plural[part], w.sys)
         ELSE IF part = "names" THEN [is |-> "names", names |-> {s.name : s \in Have(w.kind)} \union Derived]
         ELSE IF part = "unknown" THEN [is |-> "refused"]
         ELSE IF part \in {"position r", "position theta", "position phi"} THEN
           LET s == Row(CASE part = "position r" -> "r" [] part = "position theta" -> "theta" [] OTHER -> "phi") IN
           IF w.type = "stream" THEN [is |-> "refused"] ELSE [is |-> "scalar", var |-> s.var, unit |-> Unit(s, w.sys), quantity |-> s.quantity]
         ELSE Array(Row(part), w.sys)
Parts(w, via) ==
  CASE via = "axes" -> Axis \union {"names", "unknown"}
    [] via = "arrays" -> {s.name : s \in Table} \union {"hasdist", "hasflux"}
    [] via = "grid" -> {"r", "theta", "phi"}
    [] via = "observer" -> {s.name : s \in Have(w.kind)} \union DOMAIN Plural \union {"names", "unknown", "position r", "position theta", "position phi"}
Vias == {"axes", "arrays", "grid", "observer"}

None == [sys |-> "", kind |-> "", type |-> ""]
Init == world = None /\ at = <<>> /\ last = [op |-> "new"]
Open(w) == /\ world = None /\ world' = w /\ at' = <<"">> /\ last' = [op |-> "open", w |-> w]
Read(via, part) == /\ world /= None /\ UNCHANGED world /\ at' = <<via, part>>
                   /\ last' = [op |-> "read", via |-> via, part |-> part, answer |-> Answer(world, via, part)]
Next == /\ TLCGet("level") <= Depth
        /\ \/ \E sys \in Systems, kind \in Kinds, type \in {"stream", "point"} : Open([sys |-> sys, kind |-> kind, type |-> type])
           \/ \E via \in Vias : world /= None /\ \E part \in Parts(world, via) : Read(via, part)
Spec == Init /\ [][Next]_vars
View == <<world, at>>
Emit == PrintT(ToJson([pre |-> <<world, at>>, last |-> last', post |-> <<world', at'>>]))
-----------------------------------------------------------------------------
\* every unit is one of the system; names are unambiguous
TypeOK == /\ \A s, t \in Table : s.name = t.name => s = t
          /\ {s.name : s \in Table} \cap Derived = {}
          /\ \A s \in Table : \A sys \in Systems : Unit(s, sys) \in {Base[sys][k] : k \in DOMAIN Base[sys]}
\* the same part read through different interfaces is the same
Agree == world /= None =>
  /\ \A p \in {"r", "theta", "phi"} : Answer(world, "grid", p) = Answer(world, "arrays", p) /\ Answer(world, "grid", p) = Answer(world, "observer", p)
  /\ \A p \in DOMAIN Plural : Answer(world, "observer", p).is /= "refused" => Answer(world, "observer", p) = Answer(world, "axes", Plural[p])
  /\ \A s \in Have(world.kind) : Answer(world, "arrays", s.name) = Answer(world, "observer", s.name)
=============================================================================
