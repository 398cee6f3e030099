------------------------------ MODULE Symbolic -----------------------------
(* The language of symbolic expressions: every sequence of tokens is either
   rejected, or incomplete, or denotes a value.  A state is a sequence of
   tokens; it is extended as long as it is a prefix of something valid.

   Tokens: symbols; numbers "2" "3" "1/2" "2/3"; a number glued to what follows it, written
   with a trailing tilde; "*" "/" "(" ")" "sqrt("; exponents "^2" ...; and "?",
   any character that belongs to no token.                                   *)
EXTENDS SymAlg, Json
CONSTANTS Tokens, MaxLen
VARIABLES t,  \* the tokens
          res \* what they mean

NumVal == [x \in {"2", "3", "1/2", "2/3", "4", "1", "6", "1/12"} |->
  CASE x = "2" -> Gen("2", QI(1)) [] x = "3" -> Gen("3", QI(1)) [] x = "1/2" -> Gen("2", QI(-1))
    [] x = "2/3" -> Mul(Gen("2", QI(1)), Gen("3", QI(-1))) [] x = "4" -> Gen("2", QI(2))
    [] x = "1" -> One [] x = "6" -> Mul(Gen("2", QI(1)), Gen("3", QI(1)))
    [] x = "1/12" -> Mul(Gen("2", QI(-2)), Gen("3", QI(-1)))]
Nums == DOMAIN NumVal
GluedVal == ("2~" :> NumVal["2"]) @@ ("3~" :> NumVal["3"]) @@ ("1/2~" :> NumVal["1/2"]) @@ ("2/3~" :> NumVal["2/3"])
            @@ ("1/12~" :> NumVal["1/12"])
Glued == DOMAIN GluedVal
ExpVal == ("^2" :> QI(2)) @@ ("^3" :> QI(3)) @@ ("^-1" :> QI(-1)) @@ ("^1/2" :> Q(1, 2)) @@ ("^-3/2" :> Q(-3, 2))
          @@ ("^0" :> QI(0)) @@ ("^5/12" :> Q(5, 12)) @@ ("^-2" :> QI(-2)) @@ ("^1" :> QI(1))
Exps == DOMAIN ExpVal
Opens == {"(", "sqrt("}

Tok(i) == IF i <= Len(t') THEN t'[i] ELSE "end"
Fail == [st |-> "error", v |-> One, n |-> 0, amb |-> {}]
More == [st |-> "more", v |-> One, n |-> 0, amb |-> {}]
Ok(v, n, amb) == [st |-> "ok", v |-> v, n |-> n, amb |-> amb]

\* an optional exponent at i applied to x
Raised(r) == IF r.st = "ok" /\ Tok(r.n) \in Exps THEN Ok(Pow(r.v, ExpVal[Tok(r.n)]), r.n + 1, r.amb) ELSE r

RECURSIVE Factor(_), Chain(_, _, _, _, _)
\* the single operand that starts at i
Base(i) ==
  LET k == Tok(i) IN
  CASE k = "end" -> More
    [] k \in Syms -> Raised(Ok(Gen(k, QI(1)), i + 1, {}))
    [] k \in Nums -> Raised(Ok(NumVal[k], i + 1, {}))
    [] k \in Opens ->
         LET r == Chain(i + 1, One, "", TRUE, {}) IN
         IF r.st # "ok" THEN r
         ELSE IF Tok(r.n) = ")" THEN Raised(Ok(Pow(r.v, IF k = "(" THEN QI(1) ELSE Q(1, 2)), r.n + 1, r.amb))
         ELSE IF Tok(r.n) = "end" THEN More ELSE Fail
    [] OTHER -> Fail
Factor(i) ==
  IF Tok(i) \in Glued
  THEN IF Tok(i + 1) \in Syms \cup {"("}
       THEN LET r == Base(i + 1) IN IF r.st = "ok" THEN Ok(Mul(GluedVal[Tok(i)], r.v), r.n, r.amb) ELSE r
       ELSE IF Tok(i + 1) = "end" THEN More ELSE Fail
  ELSE Base(i)
\* operands combined from left to right: an operator applies to the next operand only
Chain(i, acc, prev, first, amb) ==
  LET k == Tok(i) IN
  IF k \in {"end", ")"} THEN (IF first THEN (IF k = "end" THEN More ELSE Fail) ELSE Ok(acc, i, amb))
  ELSE IF k \in {"*", "/"} /\ first THEN Fail
  ELSE LET op == IF k \in {"*", "/"} THEN k ELSE ""
           r == Factor(IF op = "" THEN i ELSE i + 1)
           bad == IF prev = "/" /\ op = "/" THEN {"ratio"} ELSE IF prev = "/" /\ op = "*" THEN {"product"} ELSE {}
       IN IF r.st # "ok" THEN r
          ELSE Chain(r.n, IF op = "/" THEN Div(acc, r.v) ELSE Mul(acc, r.v), op, FALSE, amb \cup bad \cup r.amb)
Parse == LET r == Chain(1, One, "", TRUE, {}) IN IF r.st = "ok" /\ r.n <= Len(t') THEN Fail ELSE r

\* not compared: things on which the documentation is silent
Silent == \/ t = <<>>
          \/ t[1] \in {"*", "/"}
          \/ \E i \in 1..Len(t) : i < Len(t) /\ t[i] \in Opens /\ t[i+1] \in {")", "*", "/"}
          \* a glued number must be glued to something
          \/ \E i \in 1..Len(t) : t[i] \in Glued /\ (i = Len(t) \/ t[i+1] \notin Syms \cup {"("})
          \* whether the coefficient in x / 2(y) is part of the divisor
          \/ \E i \in 1..Len(t) : i + 2 <= Len(t) /\ t[i] = "/" /\ t[i+1] \in Glued /\ t[i+2] = "("

Init == t = <<>> /\ res = More
Next == \E k \in Tokens : /\ Len(t) < MaxLen
                          /\ res.st # "error"
                          /\ ~(Len(t) > 0 /\ t[Len(t)] \in Glued /\ k \in Nums \cup Glued)
                          /\ t' = Append(t, k)
                          /\ res' = Parse
Spec == Init /\ [][Next]_<<t, res>>
\* algebraic laws of the denotation, as a check of the specification itself
Laws == LET v == res.v IN res.st = "ok" =>
          Mul(v, Pow(v, QI(-1))) = One /\ Div(v, v) = One /\ Pow(v, QI(1)) = v
View == t
Emit == Silent \/ PrintT(ToJson([t |-> t, st |-> res.st, v |-> [g \in {x \in Gens : res.v[x] # QZero} |-> res.v[g]], amb |-> res.amb]))
=============================================================================
