------------------------------- MODULE Sharing --------------------------------
(* Sharing among parties 0..n-1 over a field of scalars: party p holds the    *)
(* value of a polynomial at p + 1, the secret is its value at 0.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_), FInt(_)

RECURSIVE SumOf(_, _)
SumOf(Op(_), S) == IF S = {} THEN FInt(0) ELSE LET x == CHOOSE x \in S : TRUE IN FAdd(Op(x), SumOf(Op, S \ {x}))
RECURSIVE ProdOf(_, _)
ProdOf(Op(_), S) == IF S = {} THEN FInt(1) ELSE LET x == CHOOSE x \in S : TRUE IN FMul(Op(x), ProdOf(Op, S \ {x}))

\* coefficient of the value at point j when interpolating at point x from the points S (integers)
Coef(j, S, x) == LET num == ProdOf(LAMBDA m : FSub(FInt(x), FInt(m)), S \ {j})
                     den == ProdOf(LAMBDA m : FSub(FInt(j), FInt(m)), S \ {j})
                 IN FMul(num, FInv(den))
\* the value at x of the polynomial of lowest degree through the points (j, val[j]), j in S
Interpolate(val, S, x) == SumOf(LAMBDA j : FMul(val[j], Coef(j, S, x)), S)
\* do the points lie on a polynomial of degree below t?
RECURSIVE Smallest(_, _)
Smallest(k, S) == IF k = 0 THEN {} ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN {m} \cup Smallest(k - 1, S \ {m})
DegreeBelow(t, val) == LET S == DOMAIN val
                           B == Smallest(t, S)
                       IN Cardinality(S) <= t \/ \A x \in S \ B : Interpolate(val, B, x) = val[x]
\* value of a polynomial, given by its coefficients from the lowest
RECURSIVE Eval(_, _)
Eval(f, x) == IF f = << >> THEN FInt(0) ELSE FAdd(f[1], FMul(FInt(x), Eval(Tail(f), x)))
\* the coefficient at x^(Cardinality(S) - 1) of the polynomial through the points S: zero when the degree is lower
Leading(val, S) == SumOf(LAMBDA j : FMul(val[j], FInv(ProdOf(LAMBDA m : FSub(FInt(j), FInt(m)), S \ {j}))), S)
=============================================================================
