-------------------------------- MODULE Views --------------------------------
(* Data files on disk, and the views through which they are read: what a view *)
(* shows is what the file that it was opened on holds, whatever happened to   *)
(* the file before.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Paths,     \* names of files
          Suffixed,  \* those of them whose suffix tells the format
          Contents,  \* what a file can hold: [vars, sizes, run]
          ArrayNames, ScalarNames, AxisNames, Depth
VARIABLES disk, last  \* path -> index into Contents; 0: no such file
vars == <<disk, last>>

Range(s) == {s[n] : n \in 1..Len(s)}
Vars(c) == Range(Contents[c].vars)
\* a variable: name, dimensions, unit ("": has none), attribute that holds it, and whether its values are whole
Arrays(c) == {v \in Vars(c) : v.name \in ArrayNames}
Scalars(c) == {v \in Vars(c) : v.name \in ScalarNames}
Units(c) == {v \in Arrays(c) \union Scalars(c) : v.unit /= ""}
Axes(c) == {d \in AxisNames : Contents[c].sizes[d] > 0}
\* a scalar has no dimensions
Bad(c) == \E v \in Scalars(c) : v.dims /= <<>>
Report(c) == [arrays |-> Arrays(c), scalars |-> IF Bad(c) THEN {} ELSE Scalars(c), bad |-> Bad(c),
              units |-> {[name |-> v.name, unit |-> v.unit] : v \in Units(c)},
              sizes |-> {[name |-> d, size |-> Contents[c].sizes[d]] : d \in Axes(c)}]

Write(p, c) == /\ disk' = [disk EXCEPT ![p] = c]
               /\ last' = [op |-> "write", path |-> p, to |-> c]
Remove(p) == /\ disk[p] /= 0
             /\ disk' = [disk EXCEPT ![p] = 0]
             /\ last' = [op |-> "remove", path |-> p]
Swap(p, q) == /\ disk[p] /= 0 /\ disk[q] /= 0 /\ p /= q
              /\ disk' = [disk EXCEPT ![p] = disk[q], ![q] = disk[p]]
              /\ last' = [op |-> "swap", path |-> p, to |-> q]
\* opening needs the file; reading needs a format, told by the suffix or else by the hint
Open(p, hint) ==
  /\ UNCHANGED disk
  /\ last' = IF disk[p] = 0 THEN [op |-> "open", path |-> p, hint |-> hint, out |-> "refused"]
             ELSE IF p \notin Suffixed /\ hint /= "right" THEN [op |-> "open", path |-> p, hint |-> hint, out |-> "unreadable"]
             ELSE [op |-> "open", path |-> p, hint |-> hint, out |-> "view", c |-> disk[p], shows |-> Report(disk[p])]
\* reading the quantities of a run
Observe(p) ==
  /\ UNCHANGED disk
  /\ p \in Suffixed /\ disk[p] /= 0 /\ Contents[disk[p]].run
  /\ last' = [op |-> "observe", path |-> p, c |-> disk[p]]

Init == disk = [p \in Paths |-> 0] /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E p \in Paths, c \in 1..Len(Contents) : Write(p, c)
     \/ \E p \in Paths : Remove(p) \/ Observe(p)
     \/ \E p, q \in Paths : Swap(p, q)
     \/ \E p \in Paths, h \in {"none", "right", "wrong"} : Open(p, h)
Spec == Init /\ [][Next]_vars
View == disk
Emit == PrintT(ToJson([pre |-> disk, last |-> last', post |-> disk']))
-----------------------------------------------------------------------------
TypeOK == \A p \in Paths : disk[p] \in 0..Len(Contents)
\* what is shown depends on what the file holds and on nothing else
Faithful == \A p \in Paths : disk[p] /= 0 =>
  LET r == Report(disk[p]) IN
  /\ {u.name : u \in r.units} \subseteq {v.name : v \in Vars(disk[p])}
  /\ \A v \in r.arrays : v \in Vars(disk[p])
=============================================================================
