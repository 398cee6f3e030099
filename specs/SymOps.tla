------------------------------ MODULE SymOps -------------------------------
(* Histories of operations on named symbolic expressions.                    *)
EXTENDS SymAlg, Json
CONSTANTS Regs, Literals, Powers, Bound
VARIABLES x, last
Lit == ("1" :> One) @@ ("a" :> Gen("a", QI(1))) @@ ("b" :> Gen("b", QI(1)))
   @@ ("2" :> Gen("2", QI(1))) @@ ("a/b" :> Div(Gen("a", QI(1)), Gen("b", QI(1))))
   @@ ("3a" :> Mul(Gen("3", QI(1)), Gen("a", QI(1)))) @@ ("a^1/2" :> Gen("a", Q(1, 2)))
   @@ ("(2b)^2" :> Pow(Mul(Gen("2", QI(1)), Gen("b", QI(1))), QI(2)))
Small(v) == \A g \in Gens : /\ v[g][2] \in {1, 2} /\ QLe(QAbs(v[g]), QI(Bound))
Init == x = [r \in Regs |-> One] /\ last = [op |-> "init"]
Do(r, v, rec) == Small(v) /\ x' = [x EXCEPT ![r] = v] /\ last' = rec
Next == \/ \E r \in Regs, l \in Literals : Do(r, Lit[l], [op |-> "set", r |-> r, l |-> l])
        \/ \E r, s, u \in Regs : \/ Do(r, Mul(x[s], x[u]), [op |-> "mul", r |-> r, s |-> s, u |-> u])
                                 \/ Do(r, Div(x[s], x[u]), [op |-> "div", r |-> r, s |-> s, u |-> u])
        \/ \E r, s \in Regs, l \in Literals :
             \/ Do(r, Mul(x[s], Lit[l]), [op |-> "mullit", r |-> r, s |-> s, l |-> l])
             \/ Do(r, Div(x[s], Lit[l]), [op |-> "divlit", r |-> r, s |-> s, l |-> l])
             \/ Do(r, Div(Lit[l], x[s]), [op |-> "litdiv", r |-> r, s |-> s, l |-> l])
        \/ \E r, s \in Regs, p \in Powers : Do(r, Pow(x[s], p), [op |-> "pow", r |-> r, s |-> s, p |-> p])
Spec == Init /\ [][Next]_<<x, last>>
\* the group laws, on every reachable pair
Laws == \A r, s \in Regs : /\ Mul(x[r], x[s]) = Mul(x[s], x[r])
                           /\ Div(Mul(x[r], x[s]), x[s]) = x[r]
                           /\ \A p \in Powers : Pow(Mul(x[r], x[s]), p) = Mul(Pow(x[r], p), Pow(x[s], p))
View == x
Nz(v) == [g \in {h \in Gens : v[h] # QZero} |-> v[g]]
Emit == PrintT(ToJson([pre |-> [r \in Regs |-> Nz(x[r])], last |-> last', post |-> [r \in Regs |-> Nz(x'[r])]]))
=============================================================================
