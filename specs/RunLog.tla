------------------------------- MODULE RunLog -------------------------------
(* The run log itself: a map from run keys to metadata, shared by any number
   of interfaces to one file, plus attributes common to all runs.            *)
EXTENDS Naturals, FiniteSets, TLC, Json, Sequences

CONSTANTS Keys, Fields, Vals, Dirs

VARIABLES log, dir, last
vars == <<log, dir, last>>

NoEntry == [none |-> TRUE]
Metas == UNION {[F -> Vals] : F \in SUBSET Fields}

Init == log = [k \in Keys |-> NoEntry] /\ dir = "d1" /\ last = [op |-> "init"]
Has(k) == log[k] # NoEntry

Create(k, m, how) ==
  /\ log' = IF how = "both" THEN log ELSE [log EXCEPT ![k] = m]
  /\ how = "both" => m # <<>>
  /\ UNCHANGED dir
  /\ last' = [op |-> "create", k |-> k, m |-> m, how |-> how, ok |-> how # "both"]
Load(k, m, type) ==
  /\ log' = IF type = "txt" THEN log ELSE [log EXCEPT ![k] = m]
  /\ UNCHANGED dir
  /\ last' = [op |-> "load", k |-> k, m |-> m, type |-> type, ok |-> type # "txt"]
AppendTo(k, f, v) ==
  /\ log' = IF Has(k) THEN [log EXCEPT ![k] = [g \in DOMAIN @ \cup {f} |-> IF g = f THEN v ELSE @[g]]] ELSE log
  /\ UNCHANGED dir
  /\ last' = [op |-> "append", k |-> k, f |-> f, v |-> v, ok |-> Has(k)]
\* a value that cannot be stored is refused without any effect
AppendBad(k, f) ==
  /\ UNCHANGED <<log, dir>>
  /\ last' = [op |-> "appendbad", k |-> k, f |-> f, ok |-> FALSE]
Mv(k, q) ==
  /\ k # q /\ ~Has(q)
  /\ log' = IF Has(k) THEN [log EXCEPT ![q] = log[k], ![k] = NoEntry] ELSE log
  /\ UNCHANGED dir
  /\ last' = [op |-> "mv", k |-> k, q |-> q, ok |-> Has(k)]
Rm(k) ==
  /\ log' = [log EXCEPT ![k] = NoEntry]
  /\ UNCHANGED dir
  /\ last' = [op |-> "rm", k |-> k, ok |-> TRUE]
\* the directory of the log was renamed; keys follow it
Relocate(d, how) ==
  /\ how # "ok" \/ d # dir
  /\ dir' = IF how = "ok" THEN d ELSE dir
  /\ UNCHANGED log
  /\ last' = [op |-> "relocate", d |-> d, how |-> how, ok |-> how = "ok"]
\* open the existing file again, with or without (refused) common attributes
Reopen(common) ==
  /\ UNCHANGED <<log, dir>>
  /\ last' = [op |-> "reopen", common |-> common, ok |-> ~common]

Next == \/ \E k \in Keys, m \in Metas, how \in {"map", "items", "both"} : Create(k, m, how)
        \/ \E k \in Keys, m \in Metas, t \in {"json", "JSON", "txt"} : Load(k, m, t)
        \/ \E k \in Keys, f \in Fields, v \in Vals : AppendTo(k, f, v)
        \/ \E k \in Keys, f \in Fields : AppendBad(k, f)
        \/ \E k, q \in Keys : Mv(k, q)
        \/ \E k \in Keys : Rm(k)
        \/ \E d \in Dirs, how \in {"ok", "missing", "file"} : Relocate(d, how)
        \/ \E c \in BOOLEAN : Reopen(c)
Spec == Init /\ [][Next]_vars

TypeOK == \A k \in Keys : log[k] = NoEntry \/ log[k] \in Metas
Frame == [][\A k \in Keys : log'[k] # log[k] => last'.op \notin {"reopen", "relocate", "appendbad"} /\
              (k = last'.k \/ (last'.op = "mv" /\ k = last'.q))]_vars
View == <<log, dir>>
Emit == PrintT(ToJson([pre |-> [log |-> log, dir |-> dir], last |-> last', post |-> [log |-> log', dir |-> dir']]))
=============================================================================
