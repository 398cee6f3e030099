------------------------------- MODULE Crash -------------------------------
(* What may be on disk when a project operation dies or fails half-way.

   The step grain is the file-system call: an update of the run log or of the
   settings writes a new copy (in any number of pieces) and then replaces the
   old one in a single step.  A crash may happen between any two steps.

   disk.log  : "complete" documents are sequences numbers 0..n of the versions
               that this operation writes; Torn is anything else.
   disk.conf : likewise.
   An operation is a sequence of steps; the versions of the log are given by
   the branch-wise prefix of the operation.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Atomic      \* TRUE: replace-on-write (the code); FALSE: truncate and write

Branches == <<"A", "B">>
Slots == {[b |-> b, r |-> r] : b \in {"A", "B"}, r \in {"r1", "r2"}}
Torn == "torn"

\* all initial situations: which slots hold a logged run
Pres == SUBSET Slots

Ops == [op : {"run"}, r : {"r1", "r2"}] \cup [op : {"mv"}, r : {"r1", "r2"}, q : {"r1", "r2", "r3"}]
       \cup [op : {"rm"}, r : {"r1", "r2"}] \cup [op : {"reset"}] \cup [op : {"rename"}] \cup [op : {"open"}]

VARIABLES pre, act, todo, dirs, log, conf, at, pend, phase
vars == <<pre, act, todo, dirs, log, conf, at, pend, phase>>

\* The plan: one entry per branch (or per whole-project step).
Plan(o) == IF o.op = "rename" THEN <<"move", "log", "conf">>
           ELSE IF o.op = "open" THEN <<>> ELSE Branches

At(root, slots) == {[at |-> root, b |-> s.b, r |-> s.r] : s \in slots}

Init == /\ pre \in Pres /\ act \in Ops
        /\ (act.op = "mv" => act.r # act.q)
        /\ todo = Plan(act) /\ dirs = pre /\ log = [st |-> "ok", e |-> At("p", pre)] /\ conf = "p" /\ at = "p"
        /\ pend = "none" /\ phase = "go"

S(b, r) == [b |-> b, r |-> r]
Moved(l, b) == {IF e = S(b, act.r) THEN S(b, act.q) ELSE e : e \in l}
Gone(l, b) == {e \in l : ~(e.b = b /\ (act.op = "reset" \/ e.r = act.r))}

\* the directory step of the head of the plan, then its file update is pending
DirStep ==
  /\ phase = "go" /\ todo # <<>>
  /\ LET b == Head(todo) IN
     CASE act.op = "run" ->
            IF S(b, act.r) \in dirs THEN todo' = Tail(todo) /\ UNCHANGED <<dirs, phase, pend, at>>
            ELSE dirs' = dirs \cup {S(b, act.r)} /\ pend' = "log" /\ phase' = "write" /\ UNCHANGED <<todo, at>>
       [] act.op = "mv" ->
            IF S(b, act.r) \notin dirs \/ S(b, act.q) \in dirs
            THEN todo' = Tail(todo) /\ UNCHANGED <<dirs, phase, pend, at>>
            ELSE dirs' = Moved(dirs, b) /\ pend' = "log" /\ phase' = "write" /\ UNCHANGED <<todo, at>>
       [] act.op \in {"rm", "reset"} ->
            IF Gone(dirs, b) = dirs THEN todo' = Tail(todo) /\ UNCHANGED <<dirs, phase, pend, at>>
            ELSE \* runs are removed one at a time
                 \E e \in dirs \ Gone(dirs, b) :
                   dirs' = dirs \ {e} /\ pend' = "log" /\ phase' = "write" /\ UNCHANGED <<todo, at>>
       [] act.op = "rename" ->
            IF b = "move" THEN at' = "q" /\ todo' = Tail(todo) /\ UNCHANGED <<dirs, phase, pend>>
            ELSE pend' = b /\ phase' = "write" /\ UNCHANGED <<dirs, todo, at>>
  /\ UNCHANGED <<pre, act, log, conf>>

\* begin to write the pending document
BeginWrite ==
  /\ phase = "write"
  /\ phase' = "replace"
  /\ IF Atomic THEN UNCHANGED <<log, conf>>
     ELSE IF pend = "conf" THEN conf' = Torn /\ UNCHANGED log ELSE log' = [st |-> Torn, e |-> {}] /\ UNCHANGED conf
  /\ UNCHANGED <<pre, act, todo, dirs, at, pend>>

NewLog == LET b == Head(todo) IN
          CASE act.op = "run" -> dirs \cap (pre \cup {S("A", act.r), S("B", act.r)})
            [] OTHER -> dirs

\* Entries may be re-keyed one by one or together when a project is renamed.
Rekeyed(l) == {(l \ S1) \cup {[e EXCEPT !.at = "q"] : e \in S1} :
                 S1 \in IF l = {} \/ \A e \in l : e.at = "q" THEN {{}}
                        ELSE (SUBSET {e \in l : e.at = "p"}) \ {{}}}
Old == IF log.st = Torn THEN At("p", pre) ELSE log.e

Replace ==
  /\ phase = "replace"
  /\ IF pend = "conf" THEN conf' = "q" /\ UNCHANGED log
     ELSE IF act.op = "rename" THEN (\E l \in Rekeyed(Old) : log' = [st |-> "ok", e |-> l]) /\ UNCHANGED conf
     ELSE log' = [st |-> "ok", e |-> At("p", NewLog)] /\ UNCHANGED conf
  /\ phase' = "go" /\ pend' = "none"
  /\ todo' = IF \/ act.op \in {"rm", "reset"} /\ Gone(dirs, Head(todo)) # dirs
                \/ act.op = "rename" /\ pend = "log" /\ \E e \in log'.e : e.at = "p"
             THEN todo ELSE Tail(todo)
  /\ UNCHANGED <<pre, act, dirs, at>>

Next == DirStep \/ BeginWrite \/ Replace
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
NeverTorn == log.st # Torn /\ conf # Torn
\* what is on disk is the old document or one that the operation completed
\* every entry is present exactly once, under the old or the new path
NoneLost == act.op = "rename" =>
              /\ {[b |-> e.b, r |-> e.r] : e \in log.e} = pre
              /\ Cardinality(log.e) = Cardinality(pre)
OldEntriesKept == (act.op \in {"run", "open"}) => At("p", pre) \subseteq log.e
LogFollowsDirs == (phase = "go" /\ act.op # "rename") => log.e = At("p", dirs)
Finishes == <>(todo = <<>>)

Emit == PrintT(ToJson([pre |-> pre, op |-> act, log |-> log, conf |-> conf, at |-> at]))
=============================================================================
