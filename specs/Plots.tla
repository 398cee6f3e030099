-------------------------------- MODULE Plots --------------------------------
(* What plotting an array shows (P31).  An array with labeled dimensions is subscripted, scaled and converted, and    *)
(* plotted in between.  A plot is one line: the values of the array in the unit that is asked for over the axis that  *)
(* is asked for, with labels that name what is shown unless the user gives labels.  Nothing that was plotted before,  *)
(* whether it succeeded or not, shows up in a plot, and no figure is left behind.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes, Depth
VARIABLES array, open, last
vars == <<array, open, last>>

Kind == [time |-> "coordinates", radius |-> "coordinates", shell |-> "points", species |-> "symbols"]
\* units of the array, all of one quantity
Units == {"km", "m"}
Dims(a) == DOMAIN a.size
Long(a) == {d \in Dims(a) : a.size[d] > 1}
Logical(a) == Cardinality(Long(a)) = 1
The(a) == CHOOSE d \in Long(a) : TRUE

\* how the horizontal values are asked for
Ways == {"default", "unknown", "measured", "long", "coordinates", "number"} \union {"named time", "named radius", "named shell", "named species"}
Name(x) == CASE x = "named time" -> "time" [] x = "named radius" -> "radius" [] x = "named shell" -> "shell" [] x = "named species" -> "species" [] OTHER -> ""
Into == {"own", "km", "m", "bad"}
Labels == {{}, {"x"}, {"y"}, {"x", "y", "title"}}
Styles == {"plain", "style", "limits", "wrong"}

\* everything that is wrong with a request: one of these is reported
Wrong(a, q) ==
  (IF Logical(a) THEN {} ELSE {"shape"})
  \union (IF q.into = "bad" THEN {"unit"} ELSE {})
  \union (IF q.x = "unknown" \/ (Name(q.x) /= "" /\ Name(q.x) \notin Dims(a)) THEN {"unknown"} ELSE {})
  \union (IF q.x = "number" THEN {"type"} ELSE {})
  \union (IF q.x = "long" THEN {"length"} ELSE {})
  \union (IF Logical(a) /\ Name(q.x) \in Dims(a) /\ Name(q.x) /= The(a) THEN {"length"} ELSE {})
  \union (IF q.dest = "nowhere" THEN {"path"} ELSE {})
  \union (IF q.style = "wrong" THEN {"keyword"} ELSE {})

UnitOf(a, into) == IF into = "own" THEN a.unit ELSE into
\* over: the axis whose values are shown ("" when they are given)
Shown(a, q) ==
  LET over == IF q.x = "default" \/ Name(q.x) /= "" THEN The(a) ELSE "" IN
  [is |-> "shown", over |-> over, unit |-> UnitOf(a, q.into), lines |-> 1,
   xlabel |-> IF "x" \in q.labels THEN "user" ELSE IF over = "" THEN "free" ELSE "axis",
   ylabel |-> IF "y" \in q.labels THEN "user" ELSE "unit",
   title |-> IF "title" \in q.labels THEN "user" ELSE "none",
   style |-> q.style]
Answer(a, q) == IF Wrong(a, q) = {} THEN Shown(a, q) ELSE [is |-> "refused", why |-> Wrong(a, q)]
-----------------------------------------------------------------------------
None == [size |-> <<>>, unit |-> "", scale |-> 0]
Init == array = None /\ open = {} /\ last = [op |-> "new"]
Create(s, u) == /\ array = None /\ array' = [size |-> s, unit |-> u, scale |-> 1] /\ UNCHANGED open
                /\ last' = [op |-> "create", size |-> s, unit |-> u]
\* an element of one dimension: the dimension remains, with one element
Take(d) == /\ array /= None /\ array.size[d] > 1 /\ array' = [array EXCEPT !.size[d] = 1] /\ UNCHANGED open
           /\ last' = [op |-> "take", d |-> d]
Scale == /\ array /= None /\ array.scale = 1 /\ array' = [array EXCEPT !.scale = 3] /\ UNCHANGED open /\ last' = [op |-> "scale", by |-> 3]
Convert(u) == /\ array /= None /\ array.unit /= u /\ array' = [array EXCEPT !.unit = u] /\ UNCHANGED open /\ last' = [op |-> "convert", unit |-> u]
\* the figure exists while it is drawn: it is gone afterwards in either case
Plot(q) == /\ array /= None /\ UNCHANGED array /\ open' = {}
           /\ last' = [op |-> "plot", q |-> q, answer |-> Answer(array, q), dims |-> Dims(array)]
Next == /\ TLCGet("level") <= Depth
        /\ \/ \E s \in Shapes, u \in Units : Create(s, u)
           \/ \E d \in Dims(array) : Take(d)
           \/ Scale
           \/ \E u \in Units : Convert(u)
           \/ array /= None /\ \E x \in Ways, into \in Into, labels \in Labels, style \in Styles, dest \in {"path", "screen", "nowhere"} :
                Plot([x |-> x, into |-> into, labels |-> labels, style |-> style, dest |-> dest])
Spec == Init /\ [][Next]_vars
View == <<array, open>>
Emit == PrintT(ToJson([pre |-> array, last |-> last', post |-> array']))
-----------------------------------------------------------------------------
\* no figure remains
Closed == open = {}
\* what is shown is in the unit that was asked for, has as many values as the array, and comes from the array or the user
Sound == last.op = "plot" /\ last.answer.is = "shown" =>
  /\ Logical(array)
  /\ last.answer.unit \in Units
  /\ last.q.into /= "own" => last.answer.unit = last.q.into
  /\ last.answer.over \in Dims(array) \union {""}
  /\ last.answer.over /= "" => array.size[last.answer.over] > 1
  /\ last.answer.lines = 1
\* neither the scale, the unit nor the labels decide whether an array can be plotted
Free == last.op = "plot" => (last.answer.is = "shown" <=>
  Wrong([array EXCEPT !.scale = 1, !.unit = "m"], [last.q EXCEPT !.labels = {}]) = {})
=============================================================================
