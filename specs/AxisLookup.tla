----------------------------- MODULE AxisLookup -----------------------------
(* An axis and what is found on it.  The axis is a sequence of abstract       *)
(* coordinates (integers, growing with the physical coordinate) of one kind:  *)
(* "points" and "symbols", which are found by what they are, or "coords",     *)
(* measured coordinates, which are found by the quantity they are, whatever   *)
(* unit the axis and the target are written in.                               *)
EXTENDS Index, TLC, Json

CONSTANTS Starts,   \* sequences of coordinates of the axes to begin with
          Kinds, Targets,  \* sets: kinds of axis, sequences of coordinates to look up
          Units, Exprs, Depth
VARIABLES ax, last
vars == <<ax, last>>

Range(s) == {s[n] : n \in 1..Len(s)}
\* the first position of coordinate c
At0(c) == (CHOOSE n \in 1..Len(ax.pos) : ax.pos[n] = c /\ \A m \in 1..(n - 1) : ax.pos[m] /= c) - 1
Lower(t) == {c \in Range(ax.pos) : c <= t}
Upper(t) == {c \in Range(ax.pos) : c >= t}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the coordinate that a target stands for; the end of the axis where none lies on that side
Nearest(t, side) ==
  IF t \in Range(ax.pos) THEN t
  ELSE IF side = "lower" THEN (IF Lower(t) = {} THEN Min(Range(ax.pos)) ELSE Max(Lower(t)))
  ELSE IF Upper(t) = {} THEN Max(Range(ax.pos)) ELSE Min(Upper(t))
Found(ts, side) ==
  IF side /= "none" \/ \A n \in 1..Len(ts) : ts[n] \in Range(ax.pos)
  THEN [out |-> "found", at |-> [n \in 1..Len(ts) |-> At0(Nearest(ts[n], side))]]
  ELSE [out |-> "refused"]

Lookup(ts, u, side) ==
  /\ u = "none" \/ ax.kind = "coords"
  /\ side = "none" \/ ax.kind = "coords"
  /\ last' = [op |-> "lookup", ts |-> ts, unit |-> u, side |-> side, found |-> Found(ts, side),
              inside |-> [n \in 1..Len(ts) |-> ts[n] \in Range(ax.pos)]]
  /\ UNCHANGED ax
Sub(e) ==
  LET ok == Denoted(Len(ax.pos), e)
      sel == IF ok THEN Positions(Len(ax.pos), e) ELSE <<>>
  IN \* the new axis knows at which positions of this one its coordinates are
     /\ last' = [op |-> "sub", expr |-> e, out |-> IF ok THEN "axis" ELSE "refused", at |-> sel]
     /\ ax' = IF ok /\ sel /= <<>> THEN [ax EXCEPT !.pos = [n \in 1..Len(sel) |-> ax.pos[sel[n] + 1]]] ELSE ax
     /\ ok => sel /= <<>>
\* an axis which is only as long as this one, without labels: what is looked up are positions, and those that exist are found
Plain(ts) ==
  /\ last' = [op |-> "plain", ts |-> ts, out |-> IF \A n \in 1..Len(ts) : ts[n] >= -Len(ax.pos) /\ ts[n] < Len(ax.pos) THEN "found" ELSE "refused"]
  /\ UNCHANGED ax
Convert(u) ==
  /\ ax.kind = "coords"
  /\ last' = [op |-> "convert", unit |-> u]
  /\ ax' = [ax EXCEPT !.unit = u]

Init == /\ ax \in {[kind |-> k, pos |-> p, unit |-> CHOOSE u \in Units : TRUE] : k \in Kinds, p \in Starts}
        /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E ts \in Targets, u \in Units \union {"none"}, side \in {"none", "lower", "upper"} : Lookup(ts, u, side)
     \/ \E ts \in {<<i>> : i \in -6..6} \union {<<i, j>> : i, j \in -3..2} : Plain(ts)
     \/ TLCGet("level") < Depth /\ \E e \in Exprs : Sub(e)
     \/ TLCGet("level") < Depth /\ \E u \in Units : Convert(u)
Spec == Init /\ [][Next]_vars
View == ax
Emit == PrintT(ToJson([pre |-> ax, last |-> last', post |-> ax']))
-----------------------------------------------------------------------------
\* looking up what is at a position leads back to the coordinate
Faithful == \A n \in 1..Len(ax.pos) : ax.pos[At0(ax.pos[n]) + 1] = ax.pos[n]
\* no coordinate lies between the target and the one found on the requested side
Tight ==
  \A ts \in Targets : \A n \in 1..Len(ts) :
    /\ LET c == Nearest(ts[n], "lower") IN
         \/ c <= ts[n] /\ ~\E d \in Range(ax.pos) : c < d /\ d <= ts[n]
         \/ Lower(ts[n]) = {}
    /\ LET c == Nearest(ts[n], "upper") IN
         \/ c >= ts[n] /\ ~\E d \in Range(ax.pos) : ts[n] <= d /\ d < c
         \/ Upper(ts[n]) = {}
=============================================================================
