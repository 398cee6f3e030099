------------------------------- MODULE Tables --------------------------------
(* Tables of records and requests to them.  A record gives values to keys;    *)
(* the key "c" may be absent from some (value 0).  The state is a table,      *)
(* which grows by a record; at every table all requests are made.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRows, CVals
VARIABLES table, last
vars == <<table, last>>

Keys == {"a", "b", "c"}
Entries == [a : {1, 2}, b : {1, 2}, c : CVals]
Val(e, k) == CASE k = "a" -> e.a [] k = "b" -> e.b [] k = "c" -> e.c
\* tables are kept sorted: the order of records has no influence
Rank(e) == 100 * e.a + 10 * e.b + e.c
Common == {k \in Keys : \A n \in 1..Len(table) : Val(table[n], k) /= 0}
Rows(P) == {n \in 1..Len(table) : \A p \in P : Val(table[n], p[1]) = p[2]}
\* the pairs before and including the n-th
Upto(req, n) == {req[m] : m \in 1..n}

\* a strict request: the only record which satisfies all pairs
Strict(req) ==
  IF \E n \in 1..Len(req) : req[n][1] \notin Common THEN [out |-> "key", row |-> 0]
  ELSE LET R == Rows(Upto(req, Len(req)))
       IN IF Cardinality(R) = 1 THEN [out |-> "ok", row |-> CHOOSE n \in R : TRUE] ELSE [out |-> "lookup", row |-> 0]
\* an iterative request: narrows pair by pair until one record remains
Iterative(req) ==
  LET N == {n \in 1..Len(req) : Cardinality(Rows(Upto(req, n))) = 1 /\ \A m \in 1..n : req[m][1] \in Common}
      first == CHOOSE n \in N : \A m \in N : n <= m
      missing == \E n \in 1..Len(req) : req[n][1] \notin Common
  IN IF N /= {} THEN [out |-> IF missing THEN "ok or key" ELSE "ok", row |-> CHOOSE r \in Rows(Upto(req, first)) : TRUE]
     ELSE IF missing THEN [out |-> "key or lookup", row |-> 0]
     ELSE IF Rows(Upto(req, Len(req))) = {} THEN [out |-> "lookup", row |-> 0]
     ELSE [out |-> "ambiguous", row |-> 0]

Pair == Keys \X {1, 2}
Requests == {<<p>> : p \in Pair}
  \union {<<p, q>> : <<p, q>> \in {z \in Pair \X Pair : z[1][1] /= z[2][1]}}
  \union {<<p, q, r>> : <<p, q, r>> \in {z \in Pair \X Pair \X Pair : Cardinality({z[1][1], z[2][1], z[3][1]}) = 3}}

Grow(e) ==
  /\ Len(table) < MaxRows
  /\ IF table = <<>> THEN TRUE ELSE Rank(table[Len(table)]) <= Rank(e)
  /\ table' = Append(table, e)
  /\ last' = [op |-> "grow"]
Request(req) ==
  /\ last' = [op |-> "request", req |-> req, strict |-> Strict(req), iterative |-> Iterative(req)]
  /\ UNCHANGED table
\* records with a value under some key, and the values of a key
Find(v) ==
  /\ last' = [op |-> "find", v |-> v, rows |-> {n \in 1..Len(table) : \E k \in Keys : Val(table[n], k) = v}]
  /\ UNCHANGED table
Column(k) ==
  /\ last' = [op |-> "column", k |-> k, common |-> k \in Common, values |-> [n \in 1..Len(table) |-> Val(table[n], k)]]
  /\ UNCHANGED table

Init == table = <<>> /\ last = [op |-> "new"]
Next == \/ \E e \in Entries : Grow(e)
        \/ /\ table /= <<>>
           /\ \/ \E req \in Requests : Request(req)
              \/ \E v \in 1..3 : Find(v)
              \/ \E k \in Keys : Column(k)
Spec == Init /\ [][Next]_vars
View == table
Emit == last'.op = "grow" \/ PrintT(ToJson([table |-> table, last |-> last']))
-----------------------------------------------------------------------------
\* a strict answer satisfies every pair; when both ways answer a strict request, they answer the same
Laws == \A req \in Requests :
  LET s == Strict(req)  i == Iterative(req)
  IN /\ s.out = "ok" => (\A n \in 1..Len(req) : Val(table[s.row], req[n][1]) = req[n][2]) /\ i.out = "ok" /\ i.row = s.row
     /\ i.out = "ambiguous" => Cardinality(Rows(Upto(req, Len(req)))) > 1
     /\ i.out = "lookup" => s.out = "lookup"
AllLaws == IF table = <<>> THEN TRUE ELSE Laws
=============================================================================
