---------------------------- MODULE AliasGroups ----------------------------
(* A collection of disjoint alias groups (no values) and the set operations on
   single groups.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys
VARIABLES gs, last
Init == gs = {} /\ last = [op |-> "init"]
Used == UNION gs
Subs == SUBSET Keys \ {{}}
Hit(x) == {g \in gs : g \cap x # {}}

Add(x) == /\ gs' = IF Hit(x) = {} THEN gs \cup {x} ELSE gs
          /\ last' = [op |-> "add", x |-> x, ok |-> Hit(x) = {}]
Discard(k) == /\ gs' = gs \ Hit({k}) /\ last' = [op |-> "discard", x |-> {k}, ok |-> TRUE]
DiscardGroup(g) == /\ gs' = gs \ {g} /\ last' = [op |-> "discardgroup", x |-> g, ok |-> TRUE]
\* merging a group joins it with the group that it overlaps (at most one)
Merged(x) == (gs \ Hit(x)) \cup {x \cup UNION Hit(x)}
Update(x) == /\ Cardinality(Hit(x)) <= 1 /\ gs' = Merged(x) /\ last' = [op |-> "update", x |-> x, ok |-> TRUE]
MergeNew(x) == /\ Cardinality(Hit(x)) <= 1 /\ gs' = Merged(x) /\ last' = [op |-> "merge", x |-> x, ok |-> TRUE]
Without(x) == /\ gs' = gs \ Hit(x) /\ last' = [op |-> "without", x |-> x, ok |-> TRUE]
Next == \/ \E x \in Subs : Add(x) \/ Update(x) \/ MergeNew(x) \/ Without(x)
        \/ \E k \in Keys : Discard(k)
        \/ \E g \in gs : DiscardGroup(g)
Spec == Init /\ [][Next]_<<gs, last>>
Disjoint == \A g, h \in gs : g # h => g \cap h = {}
View == gs
Emit == PrintT(ToJson([pre |-> gs, last |-> last', post |-> gs']))
=============================================================================
