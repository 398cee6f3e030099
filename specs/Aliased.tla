------------------------------ MODULE Aliased ------------------------------
(* A mutable aliased mapping: a set of pairwise disjoint alias groups with one
   value each, plus named groups of keys.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Vals, Names, UseUpdate, UseFreeze

VARIABLES m,      \* set of [g |-> set of aliases, v |-> value]
          ng,     \* named groups: Names -> sequence of keys (empty: undefined)
          last
vars == <<m, ng, last>>

Init == m = {} /\ ng = [n \in Names |-> <<>>] /\ last = [op |-> "init"]

Used == UNION {e.g : e \in m}
Of(k) == CHOOSE e \in m : k \in e.g
None == 0
Val(k) == IF k \in Used THEN Of(k).v ELSE None

\* the map after assigning v to k
Assigned(x, k, v) ==
  IF \E e \in x : k \in e.g
  THEN LET e == CHOOSE e \in x : k \in e.g IN (x \ {e}) \cup {[g |-> e.g, v |-> v]}
  ELSE x \cup {[g |-> {k}, v |-> v]}

Do(op, new, rec) == m' = new /\ UNCHANGED ng /\ last' = rec

Set(k, v) == Do("set", Assigned(m, k, v), [op |-> "set", k |-> k, v |-> v, ok |-> TRUE])
SetGroup(k, v) ==   \* m[Group(all aliases of k)] = v
  /\ k \in Used
  /\ Do("setgroup", Assigned(m, k, v), [op |-> "setgroup", k |-> k, v |-> v, ok |-> TRUE])
Del(k) == Do("del", IF k \in Used THEN m \ {Of(k)} ELSE m, [op |-> "del", k |-> k, ok |-> k \in Used])
Pop(k, d) == Do("pop", IF k \in Used THEN m \ {Of(k)} ELSE m,
                [op |-> "pop", k |-> k, d |-> d, ok |-> k \in Used \/ d, ret |-> Val(k)])
SetDefault(k, v) == Do("setdefault", IF k \in Used THEN m ELSE Assigned(m, k, v),
                       [op |-> "setdefault", k |-> k, v |-> v, ok |-> TRUE,
                        ret |-> IF k \in Used THEN Val(k) ELSE v])
Update(k, v, l, w) == /\ UseUpdate
                      /\ Do("update", Assigned(Assigned(m, k, v), l, w),
                            [op |-> "update", k |-> k, v |-> v, l |-> l, w |-> w, ok |-> TRUE])
Clear == Do("clear", {}, [op |-> "clear", ok |-> TRUE])

\* m.alias(k, *as): all of them or none
Alias(k, as) ==
  LET new == {as[i] : i \in DOMAIN as} \ {k}
      ok == (k \in Used \/ new = {}) /\ new \cap Used = {}
  IN Do("alias", IF ok /\ new # {} THEN (m \ {Of(k)}) \cup {[g |-> Of(k).g \cup new, v |-> Val(k)]} ELSE m,
        [op |-> "alias", k |-> k, as |-> as, ok |-> ok])

\* named groups of existing keys
DefGroup(n, ks) ==
  /\ ng' = [ng EXCEPT ![n] = ks]
  /\ UNCHANGED m
  /\ \A i \in DOMAIN ks : ks[i] \in Used
  /\ last' = [op |-> "group", n |-> n, ks |-> ks, ok |-> TRUE]
\* a group cannot take the name of a key
BadGroup(k, l) ==
  /\ k \in Used /\ l \in Used
  /\ UNCHANGED <<m, ng>>
  /\ last' = [op |-> "badgroup", k |-> k, l |-> l, ok |-> FALSE]

Next == \/ \E k \in Keys, v \in Vals : Set(k, v) \/ SetGroup(k, v) \/ SetDefault(k, v)
        \/ \E k \in Keys : Del(k) \/ Pop(k, TRUE) \/ Pop(k, FALSE)
        \/ \E k, l \in Keys, v, w \in Vals : k # l /\ Update(k, v, l, w)
        \/ Clear
        \/ \E k, a \in Keys : Alias(k, <<a>>)
        \/ \E k, a, b \in Keys : Alias(k, <<a, b>>)
        \/ \E n \in Names, k, l \in Keys : DefGroup(n, <<k, l>>) \/ DefGroup(n, <<k>>)
        \/ \E k, l \in Keys : Names # {} /\ BadGroup(k, l)
Spec == Init /\ [][Next]_vars

Disjoint == \A e, f \in m : e # f => e.g \cap f.g = {}
NonEmpty == \A e \in m : e.g # {}
RefusedUnchanged == [][(~last'.ok) => UNCHANGED <<m, ng>>]_vars
\* an operation on one group leaves the others alone
Frame == [][\A e \in m : (last'.op # "clear" /\ last'.op # "badgroup" /\ last'.op # "group"
                          /\ last'.k \notin e.g /\ (last'.op = "update" => last'.l \notin e.g)) => e \in m']_vars
View == <<m, ng>>
Emit == PrintT(ToJson([pre |-> [m |-> m, ng |-> ng], last |-> last', post |-> [m |-> m', ng |-> ng']]))
=============================================================================
