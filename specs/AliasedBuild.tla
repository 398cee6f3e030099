---------------------------- MODULE AliasedBuild ----------------------------
(* Immutable aliased mappings: every assignment of values to pairwise disjoint
   alias groups with one primary name each, its views, and the merge of two.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Vals, MaxGroups

VARIABLES a, b, kind
\* a mapping is a set of [p |-> primary name, g |-> aliases including p, v |-> value]
Entries == {e \in [p : Keys, g : SUBSET Keys, v : Vals] : e.p \in e.g}
DisjointSet(S) == \A e, f \in S : e # f => e.g \cap f.g = {}

RECURSIVE Build(_, _)
Build(free, n) ==  \* all sets of at most n disjoint entries over the free names
  IF free = {} \/ n = 0 THEN {{}}
  ELSE LET k == CHOOSE k \in free : TRUE
           without == Build(free \ {k}, n)
           with == UNION {{ {[p |-> p, g |-> g, v |-> v]} \cup rest
                            : rest \in Build(free \ g, n - 1), p \in g, v \in Vals}
                          : g \in {g \in SUBSET free : k \in g}}
       IN without \cup with

Mappings == Build(Keys, MaxGroups)

Flat(x) == {<<k, e.v>> : k \in UNION {e.g : e \in x}, e \in x} \cap
           UNION {{<<k, e.v>> : k \in e.g} : e \in x}
Used(x) == UNION {e.g : e \in x}
Groups(x) == {[g |-> e.g, v |-> e.v] : e \in x}

\* merge of aliased mappings whose groups are equal or disjoint
Compatible(x, y) == \A e \in x, f \in y : e.g = f.g \/ e.g \cap f.g = {}
Merge(x, y) == Groups(y) \cup {e \in Groups(x) : \A f \in y : f.g # e.g}
\* merge with a plain dictionary {k: v}: k means the group that contains it
MergePlain(x, k, v) == {IF k \in e.g THEN [g |-> e.g, v |-> v] ELSE e : e \in Groups(x)}
                       \cup (IF k \in Used(x) THEN {} ELSE {[g |-> {k}, v |-> v]})

Init == /\ a \in Mappings
        /\ \/ kind = "one" /\ b = {}
           \/ kind = "two" /\ b \in Mappings /\ Compatible(a, b)
              /\ \A e \in a \cup b : e.p = CHOOSE k \in e.g : TRUE
Next == UNCHANGED <<a, b, kind>>
Spec == Init /\ [][Next]_<<a, b, kind>>

AllDisjoint == DisjointSet(a) /\ DisjointSet(b)
MergeLaws == kind = "two" =>
               /\ \A e, f \in Merge(a, b) : e # f => e.g \cap f.g = {}
               /\ Merge(a, {}) = Groups(a) /\ Merge({}, b) = Groups(b) /\ Merge(a, a) = Groups(a)
               /\ Flat(b) \subseteq UNION {{<<k, e.v>> : k \in e.g} : e \in Merge(a, b)}
Emit == PrintT(ToJson([kind |-> kind, a |-> a, b |-> b,
                       flat |-> Flat(a),
                       merged |-> IF kind = "two" THEN Merge(a, b) ELSE {},
                       equal |-> Flat(a) = Flat(b),
                       plain |-> IF kind = "one" THEN {[k |-> k, v |-> v, m |-> MergePlain(a, k, v)] : k \in Keys, v \in Vals}
                                 ELSE {}]))
=============================================================================
