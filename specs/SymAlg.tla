------------------------------ MODULE SymAlg -------------------------------
(* What a symbolic expression denotes: a coefficient, held as rational powers
   of primes, times rational powers of symbols.  Both are one free abelian
   group over Primes \cup Syms, written as a function to rationals.          *)
EXTENDS Rat, Sequences, FiniteSets, TLC
CONSTANTS Syms
Primes == {"2", "3"}
Gens == Primes \cup Syms
One == [g \in Gens |-> QZero]
Gen(g, e) == [One EXCEPT ![g] = e]
Mul(x, y) == [g \in Gens |-> QAdd(x[g], y[g])]
Div(x, y) == [g \in Gens |-> QSub(x[g], y[g])]
Pow(x, e) == [g \in Gens |-> QMul(x[g], e)]
\* the symbols that appear in the printed form
Support(x) == {g \in Syms : x[g] # QZero}
=============================================================================
