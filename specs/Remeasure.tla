------------------------------ MODULE Remeasure ------------------------------
(* Chains of measuring, converting and subscripting measured objects.  The    *)
(* state is the kind of object, its unit and which of the original values it  *)
(* holds; the values themselves never change.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Lengths, Units
VARIABLES obj, last
vars == <<obj, last>>

Kinds == {"value", "sequence", "measurement", "scalar", "vector", "tensor", "array"}
Single == {"value", "scalar"}
\* how many values: objects of the first kinds hold one
Fits(k, w) == (k \in Single => Len(w) = 1)
\* what it can be made from another object with
To(k) ==
  /\ Fits(k, obj.w)
  /\ k = "value" => obj.kind \in {"value", "sequence", "measurement"}
  /\ obj.kind = "value" => k \notin {"vector", "tensor"}   \* one value is neither
  /\ obj' = [obj EXCEPT !.kind = k]
  /\ last' = [op |-> "to", kind |-> k]
Measure ==
  /\ obj' = [obj EXCEPT !.kind = "measurement"]
  /\ last' = [op |-> "measure"]
Convert(u) ==
  /\ obj.unit \in Units   \* unitless objects stay so
  /\ obj' = [obj EXCEPT !.unit = u]
  /\ last' = [op |-> "withunit", unit |-> u]
Element(n) ==
  /\ obj.kind \in {"sequence", "measurement"}
  /\ obj' = [obj EXCEPT !.kind = "value", !.w = <<obj.w[n]>>]
  /\ last' = [op |-> "element", n |-> n]
Numbers(n) == [m \in 1..n |-> m]
Init == /\ obj \in {[kind |-> k, unit |-> u, w |-> Numbers(n)] : k \in Kinds, u \in Units \union {"1"}, n \in Lengths}
        /\ Fits(obj.kind, obj.w)
        /\ last = [op |-> "new"]
Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E k \in Kinds : To(k)
     \/ Measure
     \/ \E u \in Units : Convert(u)
     \/ \E n \in 1..Len(obj.w) : Element(n)
Spec == Init /\ [][Next]_vars
View == obj
Emit == PrintT(ToJson([pre |-> obj, last |-> last', post |-> obj']))
-----------------------------------------------------------------------------
Shape == Fits(obj.kind, obj.w) /\ Len(obj.w) > 0
KeepsUnit == [][last'.op /= "withunit" => obj'.unit = obj.unit]_vars
=============================================================================
