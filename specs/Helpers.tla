------------------------------ MODULE Helpers -------------------------------
(* Guarded calls, objects that exist once, and comparisons of types (P32).

   A guard wraps a function.  Types of exceptions are registered with it, each with a
   value that replaces the result of a call which raises an exception of that type (or
   of a type derived from it, unless a nearer type is registered too), or with the
   request to give the arguments back.

   A class of singletons has one object; so has each combination of a class of an
   instance set and a key, and each name of a sentinel.  Objects of different classes,
   keys or names are different objects.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxReg,      \* how many types may be registered
          MaxMade      \* how many objects may exist

(* types of exceptions: a tree, which joins twice at the bottom *)
Base == [root |-> {}, lookup |-> {"root"}, key |-> {"lookup"}, index |-> {"lookup"}, math |-> {"root"}, zero |-> {"math"}, own |-> {"key", "zero"}]
Types == DOMAIN Base
RECURSIVE Up(_)
Up(t) == {t} \cup UNION {Up(b) : b \in Base[t]}
Derives(t, b) == b \in Up(t)
\* the registered types that apply to an exception of type t, without those which a nearer one hides
Applicable(reg, t) == {b \in DOMAIN reg : Derives(t, b)}
Nearest(reg, t) == {b \in Applicable(reg, t) : ~ \E c \in Applicable(reg, t) : c # b /\ Derives(c, b)}
Values == {"none", "number", "array", "text", "echo"}

(* the result of a call with n positional and k named arguments whose function raises t ("" if it returns) *)
Echo(n, k) == IF k = 0 THEN (IF n = 1 THEN "first" ELSE "positional") ELSE IF n = 0 THEN "named" ELSE "both"
Results(reg, t, n, k) ==
  IF t = "" THEN {"result"}
  ELSE IF Nearest(reg, t) = {} THEN {"raised"}
  ELSE {IF reg[b] = "echo" THEN Echo(n, k) ELSE reg[b] : b \in Nearest(reg, t)}

(* a conversion of one type of exception into a value or another exception *)
Converted(expected, replacement, t) ==
  IF t = "" THEN "result" ELSE IF Derives(t, expected) THEN replacement ELSE "raised"

(* classes of objects that exist once *)
Singletons == {"one", "two", "child"}            \* child derives from one
Sets == {"s1", "s2"}
Keys == {"a", "b"}
Names == {"x", "y"}
Contents == {"one", "null", "list", "text"}
Things == [kind : {"single"}, class : Singletons, key : {""}] \cup [kind : {"member"}, class : Sets, key : Keys]

VARIABLES reg, made, sent, last
vars == <<reg, made, sent>>
Empty == [t \in {} |-> ""]
Init == reg = Empty /\ made = {} /\ sent = Empty /\ last = [op |-> "new"]

Catch(t, v) == /\ t \in DOMAIN reg \/ Cardinality(DOMAIN reg) < MaxReg
               /\ reg' = (t :> v) @@ reg /\ UNCHANGED <<made, sent>>
               /\ last' = [op |-> "catch", type |-> t, value |-> v]
Call(t, n, k) == /\ UNCHANGED vars
                 /\ last' = [op |-> "call", type |-> t, n |-> n, k |-> k, want |-> Results(reg, t, n, k)]
Make(o) == /\ o \in made \/ Cardinality(made) < MaxMade
           /\ made' = made \cup {o} /\ UNCHANGED <<reg, sent>>
           /\ last' = [op |-> "make", thing |-> o, known |-> o \in made]
Sentinel(n, c) == /\ n \in DOMAIN sent => sent[n] = c
                  /\ sent' = (n :> c) @@ sent /\ UNCHANGED <<reg, made>>
                  /\ last' = [op |-> "sentinel", name |-> n, content |-> c, known |-> n \in DOMAIN sent]
Next == \/ /\ made = {} /\ sent = Empty
           /\ \/ \E t \in Types, v \in Values : Catch(t, v)
              \/ \E t \in Types \cup {""}, n \in 0..2, k \in 0..2 : Call(t, n, k)
        \/ /\ reg = Empty
           /\ \/ \E o \in Things : Make(o)
              \/ \E n \in Names, c \in Contents : Sentinel(n, c)
Spec == Init /\ [][Next]_<<vars, last>>
View == vars
Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}
State(r, m, s) == [reg |-> Pairs(r), made |-> m, sent |-> Pairs(s)]
Emit == PrintT(ToJson([pre |-> State(reg, made, sent), last |-> last', post |-> State(reg', made', sent')]))
-----------------------------------------------------------------------------
(* cases without a state *)
\* a list in words: its items, separated, with a conjunction c before the last
Joined(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<"1">> ELSE IF n = 2 THEN <<"1", " c ", "2">>
             ELSE [i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN ToString((i + 1) \div 2) ELSE IF i = 2 * n - 2 THEN ", c " ELSE ", "]
ASSUME \A n \in 0..5 : PrintT(ToJson([case |-> "join", n |-> n, want |-> Joined(n)]))
\* what is nothing: no object, or one that holds nothing; a number never is
Contains == [none |-> 0, emptylist |-> 0, emptytext |-> 0, emptymap |-> 0, emptyarray |-> 0, list |-> 1, text |-> 1, map |-> 1, zeros |-> 1, ones |-> 1]
ASSUME \A x \in DOMAIN Contains : PrintT(ToJson([case |-> "null", what |-> x, want |-> Contains[x] = 0]))
ASSUME \A x \in {"zero", "one", "false", "fraction"} : PrintT(ToJson([case |-> "null", what |-> x, want |-> FALSE]))
\* the widest of two types: the one that derives from the other, or else the common base that was given
Widest(a, b, base) ==
  IF base # "" /\ ~ (Derives(a, base) /\ Derives(b, base)) THEN "TypeError"
  ELSE IF Derives(a, b) THEN a ELSE IF Derives(b, a) THEN b
  ELSE IF base # "" THEN base ELSE "ValueError"
ASSUME \A a, b \in Types : \A base \in Types \cup {""} :
  PrintT(ToJson([case |-> "widest", a |-> a, b |-> b, base |-> base, want |-> Widest(a, b, base)]))
ASSUME \A e \in Types : \A t \in Types \cup {""} : \A r \in {"none", "number", "array", "other", "message"} :
  PrintT(ToJson([case |-> "convert", expected |-> e, type |-> t, how |-> r, want |-> Converted(e, r, t)]))
ASSUME \A a, b \in Types : \A t \in (SUBSET {"lookup", "math", "own"}) \ {{}} :
  PrintT(ToJson([case |-> "instances", targets |-> <<a, b>>, types |-> t, want |-> \A x \in {a, b} : \E y \in t : Derives(x, y)]))
-----------------------------------------------------------------------------
\* a registered type always applies to itself; what is not registered propagates
Self == \A t \in DOMAIN reg : Nearest(reg, t) = {t}
Unknown == \A t \in Types : Applicable(reg, t) = {} => Results(reg, t, 1, 0) = {"raised"}
Some == \A t \in Types : Applicable(reg, t) # {} => Results(reg, t, 1, 0) # {} /\ "raised" \notin Results(reg, t, 1, 0)
ASSUME \A a, b \in Types : Widest(a, b, "") = Widest(b, a, "")
ASSUME \A a, b \in Types : Widest(a, b, "root") \notin {"TypeError", "ValueError"}
=============================================================================
