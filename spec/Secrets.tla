-------------------------------- MODULE Secrets --------------------------------
(* Distributed secrets from the outside. A value is known by its secret: a     *)
(* scalar, of which the parties hold shares. An additive value has shares that *)
(* sum to the secret; a threshold value lies on a polynomial of degree below   *)
(* its threshold t. What an operation yields depends on the secret, on t, and  *)
(* on whose messages arrive where (lost: pairs <<from, to>>).                  *)
EXTENDS Integers, FiniteSets
CONSTANTS SAdd(_, _), SMul(_, _)
\* whose contributions party p has
Quorum(p, parties, lost) == {q \in parties : q = p \/ <<q, p>> \notin lost}
Enough(p, parties, lost, t) == Cardinality(Quorum(p, parties, lost)) >= t
Combination(al, be, x, y) == SAdd(SMul(al, x), SMul(be, y))
Product(x, y) == SMul(x, y)
GoodThreshold(t, n) == t \in 1..n
=============================================================================
