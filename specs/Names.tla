-------------------------------- MODULE Names --------------------------------
(* Ordered sets of names, each naming something ("tag"): the dimensions of an *)
(* array, or, with the tags, its axes.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Tags, MaxLen, Depth, Wild  \* Wild: index tuples to permute by

VARIABLES cur, last
vars == <<cur, last>>

Range(s) == {s[n] : n \in 1..Len(s)}
Injective(s) == Cardinality(Range(s)) = Len(s)
Sets == UNION {{s \in [1..n -> Names] : Injective(s)} : n \in 0..MaxLen}
Tagged == {[names |-> s, tag |-> t] : s \in Sets, t \in {f \in [Names -> Tags] : TRUE}}
\* the tag of a name that is not there is the least
Default == CHOOSE t \in Tags : \A u \in Tags : t <= u
Norm(x) == [x EXCEPT !.tag = [n \in Names |-> IF n \in Range(x.names) THEN x.tag[n] ELSE Default]]
Others == TLCEval({Norm(x) : x \in Tagged})

Restrict(s, S) == SelectSeq(s, LAMBDA e : e \in S)
Without(s, S)  == SelectSeq(s, LAMBDA e : e \notin S)
Agree(s, t) == Restrict(s, Range(t)) = Restrict(t, Range(s))
\* the names of both; within the freedom left by the two orders, those of s come first
RECURSIVE Merge(_, _)
Merge(s, t) ==
  IF s = <<>> THEN t ELSE IF t = <<>> THEN s
  ELSE IF Head(s) = Head(t) THEN <<Head(s)>> \o Merge(Tail(s), Tail(t))
  ELSE IF Head(s) \notin Range(t) THEN <<Head(s)>> \o Merge(Tail(s), t)
  ELSE <<Head(t)>> \o Merge(s, Tail(t))
RECURSIVE Unique(_)
Unique(s) == IF s = <<>> THEN <<>>
             ELSE LET r == Unique(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

Keep(x, s) == Norm([names |-> s, tag |-> x.tag])
Join(x, y) == Norm([names |-> Merge(x.names, y.names), tag |-> [n \in Names |-> IF n \in Range(y.names) THEN y.tag[n] ELSE x.tag[n]]])
Do(label, ok, new) == /\ last' = label @@ [out |-> IF ok THEN "ok" ELSE "refused"]
                      /\ cur' = IF ok THEN new ELSE cur
Look(label) == last' = label /\ UNCHANGED cur

N == Len(cur.names)
Wrap(i) == IF i < 0 THEN i + N ELSE i
IsPerm(q) == Len(q) = N /\ (\A n \in 1..Len(q) : -N <= q[n] /\ q[n] < N) /\ Injective([n \in 1..Len(q) |-> Wrap(q[n])])
Permuted(q) == [n \in 1..N |-> cur.names[Wrap(q[n]) + 1]]

Or(y)   == Do([op |-> "or", y |-> y], Agree(cur.names, y.names), IF Agree(cur.names, y.names) THEN Join(cur, y) ELSE cur)
Ror(y)  == Do([op |-> "ror", y |-> y], Agree(cur.names, y.names), IF Agree(cur.names, y.names) THEN Join(y, cur) ELSE cur)
And(y)  == Do([op |-> "and", y |-> y], TRUE, Keep(cur, Restrict(cur.names, Range(y.names))))
Rand(y) == Do([op |-> "rand", y |-> y], TRUE, Keep(cur, Restrict(y.names, Range(cur.names))))
Minus(y) == Do([op |-> "sub", y |-> y], TRUE, Keep(cur, Without(cur.names, Range(y.names))))
Rminus(y) == Do([op |-> "rsub", y |-> y], TRUE, Keep(y, Without(y.names, Range(cur.names))))
Xor(y) == Do([op |-> "xor", y |-> y], TRUE, Join(Keep(cur, Without(cur.names, Range(y.names))), Keep(y, Without(y.names, Range(cur.names)))))
Rxor(y) == Do([op |-> "rxor", y |-> y], TRUE, Join(Keep(y, Without(y.names, Range(cur.names))), Keep(cur, Without(cur.names, Range(y.names)))))
Permute(q) == Do([op |-> "permute", q |-> q], IsPerm(q), IF IsPerm(q) THEN Keep(cur, Permuted(q)) ELSE cur)
PermuteNames(s) == LET ok == Len(s) = N /\ Range(s) = Range(cur.names)
                   IN Do([op |-> "permute names", s |-> s], ok, IF ok THEN Keep(cur, s) ELSE cur)
\* a replacement keeps the place; replacing what is not there changes nothing (or, for axes, is refused)
Swap(old, new) == [n \in 1..N |-> IF cur.names[n] = old THEN new ELSE cur.names[n]]
Replace(old, new, t) ==
  /\ new \notin Range(cur.names) \/ new = old
  /\ Do([op |-> "replace", old |-> old, new |-> new, t |-> t, there |-> old \in Range(cur.names)], TRUE,
        IF old \in Range(cur.names) THEN Norm([names |-> Swap(old, new), tag |-> [cur.tag EXCEPT ![new] = t]]) ELSE cur)
Insert(new, i, t) ==
  /\ new \notin Range(cur.names) /\ i <= N
  /\ Do([op |-> "insert", name |-> new, i |-> i, t |-> t], TRUE,
        LET p == IF i < 0 THEN N ELSE i  \* no index: at the end
        IN Norm([names |-> SubSeq(cur.names, 1, p) \o <<new>> \o SubSeq(cur.names, p + 1, N), tag |-> [cur.tag EXCEPT ![new] = t]]))
\* beside another name; where there is no such place, refused
Place(n) == CHOOSE p \in 1..N : cur.names[p] = n
InsertBy(new, where, old, t) ==
  /\ new \notin Range(cur.names)
  /\ LET ok == old \in Range(cur.names)
         p == IF ~ok THEN 0 ELSE IF where = "before" THEN Place(old) - 1 ELSE Place(old)
     IN Do([op |-> "insert by", name |-> new, where |-> where, old |-> old, t |-> t], ok,
           IF ok THEN Norm([names |-> SubSeq(cur.names, 1, p) \o <<new>> \o SubSeq(cur.names, p + 1, N), tag |-> [cur.tag EXCEPT ![new] = t]])
           ELSE cur)
\* an index from the end, or beyond it: refused, or what a list does
InsertOdd(new, i, t) ==
  /\ new \notin Range(cur.names) /\ (i < 0 \/ i > N)
  /\ LET p == IF i > N THEN N ELSE IF N + i < 0 THEN 0 ELSE N + i
     IN /\ last' = [op |-> "insert odd", name |-> new, i |-> i, t |-> t, out |-> "maybe"]
        /\ cur' = Norm([names |-> SubSeq(cur.names, 1, p) \o <<new>> \o SubSeq(cur.names, p + 1, N), tag |-> [cur.tag EXCEPT ![new] = t]])
Remove(x) == Do([op |-> "without", name |-> x, there |-> x \in Range(cur.names)], TRUE, Keep(cur, Without(cur.names, {x})))
Extract(s) == LET ok == Range(s) \subseteq Range(cur.names) /\ s /= <<>>
              IN Do([op |-> "extract", s |-> s], ok, IF ok THEN Keep(cur, s) ELSE cur)
Compare(y) ==
  LET S == Range(cur.names)
      T == Range(y.names)
      clash == {n \in S \cap T : cur.tag[n] /= y.tag[n]}
  IN Look([op |-> "compare", y |-> y, eq |-> cur.names = y.names, same |-> cur = y, clash |-> clash,
           le |-> S \subseteq T, ge |-> T \subseteq S, match |-> S = T])
\* building from names that may repeat
Build(s) == Do([op |-> "build", s |-> s], TRUE, Keep([names |-> <<>>, tag |-> [n \in Names |-> Default]], Unique(s)))

Init == cur \in Others /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E y \in Others : Or(y) \/ And(y) \/ Minus(y) \/ Xor(y) \/ Compare(y) \/ Ror(y) \/ Rand(y) \/ Rminus(y) \/ Rxor(y)
     \/ \E q \in Wild : Permute(q)
     \/ \E s \in Sets : PermuteNames(s) \/ Extract(s)
     \/ \E x \in Names : Remove(x)
     \/ \E x, y \in Names, t \in Tags : Replace(x, y, t)
     \/ \E x \in Names, t \in Tags, i \in -1..MaxLen : Insert(x, i, t)
     \/ \E x \in Names, t \in Tags, i \in -2..(MaxLen + 2) : InsertOdd(x, i, t)
     \/ \E x, y \in Names, t \in Tags, where \in {"before", "after"} : x /= y /\ InsertBy(x, where, y, t)
     \/ \E s \in UNION {[1..n -> Names] : n \in 0..MaxLen} : Build(s)
Spec == Init /\ [][Next]_vars
View == cur
Emit == PrintT(ToJson([pre |-> cur, last |-> last', post |-> cur']))
-----------------------------------------------------------------------------
IsOrderedSet == Injective(cur.names) /\ cur = Norm(cur)
\* union keeps both orders, whichever operand comes first
Orders == \A y \in Others : Agree(cur.names, y.names) =>
  LET u == Join(cur, y).names
      v == Join(y, cur).names
  IN /\ Range(u) = Range(cur.names) \union Range(y.names) /\ Range(v) = Range(u) /\ Injective(u)
     /\ Restrict(u, Range(cur.names)) = cur.names /\ Restrict(u, Range(y.names)) = y.names
Laws == \A y \in Others :
  /\ Range(Without(cur.names, Range(y.names))) \intersect Range(y.names) = {}
  /\ Range(Restrict(cur.names, Range(y.names))) \union Range(Without(cur.names, Range(y.names))) = Range(cur.names)
=============================================================================
