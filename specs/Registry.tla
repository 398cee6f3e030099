------------------------------ MODULE Registry -------------------------------
(* A registry of objects under keys.  Objects are numbered in the order in    *)
(* which they are registered and have a name of their own; an object which    *)
(* cannot have the key asked for gets its own name, or, if that is taken, any *)
(* free key made of its name and a number.  Nothing registered is lost,       *)
(* unless it is explicitly overwritten or the registry is reset.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Bases, MaxNum
VARIABLES items, base, other, home, count, lost, last
vars == <<items, base, other, home, count, lost, last>>

Names == {"f", "g"}
Asked == {"f", "f_1", "f_2"}
Numbered(nm) == {nm \o "_" \o ToString(n) : n \in 1..MaxNum}
\* items: set of <<key, object number>>
KeysOf(I) == {z[1] : z \in I}
Without(I, k) == {z \in I : z[1] /= k}
Default(nm) == IF nm \notin KeysOf(items) THEN {nm} ELSE Numbered(nm) \ KeysOf(items)

Register(nm, ask, over) ==
  /\ \E key \in IF ask /= "" /\ (ask \notin KeysOf(items) \/ over) THEN {ask} ELSE Default(nm) :
       /\ items' = Without(items, key) \union {<<key, count + 1>>}
       /\ lost' = lost \union {z[2] : z \in items \ Without(items, key)}
       /\ last' = [op |-> "register", nm |-> nm, ask |-> ask, over |-> over]
  /\ count' = count + 1
  /\ UNCHANGED <<base, other, home>>
Reset ==
  /\ home
  /\ items' = base /\ lost' = lost \union {z[2] : z \in items}
  /\ last' = [op |-> "reset"]
  /\ UNCHANGED <<base, other, home, count>>
Copy ==
  /\ other = {} /\ home
  /\ other' = items
  /\ last' = [op |-> "copy"]
  /\ UNCHANGED <<items, base, home, count, lost>>
\* go on with the copy, or with the original again
Swap ==
  /\ other /= {}
  /\ items' = other /\ other' = items /\ home' = ~home
  /\ last' = [op |-> "swap"]
  /\ UNCHANGED <<base, count, lost>>

Init ==
  /\ base \in Bases /\ items = base /\ other = {} /\ home = TRUE /\ count = 10 /\ lost = {}
  /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E nm \in Names : Register(nm, "", FALSE) \/ \E ask \in Asked, over \in BOOLEAN : Register(nm, ask, over)
     \/ Reset \/ Copy \/ Swap
Spec == Init /\ [][Next]_vars
View == <<items, base, other, home, count, lost>>
St == [items |-> items, base |-> base, other |-> other, home |-> home, count |-> count]
Emit == PrintT(ToJson([pre |-> St, last |-> last', post |-> [items |-> items', base |-> base', other |-> other', home |-> home', count |-> count']]))
-----------------------------------------------------------------------------
\* keys identify objects, and only what was overwritten or reset is lost
OneEach == \A y, z \in items : y[1] = z[1] => y = z
NothingLost == other = {} /\ home => \A n \in 11..count : n \in lost \/ \E z \in items : z[2] = n
OnlyAsked == [][last'.op = "register" /\ ~last'.over => items \subseteq items']_vars
=============================================================================
