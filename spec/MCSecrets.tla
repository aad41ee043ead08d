------------------------------- MODULE MCSecrets -------------------------------
(* Parties that really hold shares over Z_5 do what Secrets says: generation,  *)
(* resharing of additive secrets by dealing polynomials, revealing from the    *)
(* first t shares that arrive, linear combinations.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, As, Bs, Coefs
F == 5
Party == 0..N-1
Cs22 == {<<0,0>>,<<1,F-1>>,<<3,1>>,<<2,0>>}
Cs42 == {<<3,F-1>>}
Cs33 == {<<1,F-1>>,<<3,2>>}
Cs32 == {<<0,F-1>>,<<1,F-1>>,<<3,2>>}
Cs31 == {<<0,0>>,<<1,F-1>>,<<3,1>>,<<2,0>>}
InvTable == [a \in 1..F-1 |-> CHOOSE x \in 1..F-1 : (a * x) % F = 1]
Sh == INSTANCE Sharing WITH FAdd <- LAMBDA a, b : (a + b) % F, FSub <- LAMBDA a, b : (a - b) % F, FMul <- LAMBDA a, b : (a * b) % F, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % F
S == INSTANCE Secrets WITH SAdd <- LAMBDA a, b : (a + b) % F, SMul <- LAMBDA a, b : (a * b) % F
VARIABLES a, b,      \* additive shares
          x, y,      \* threshold shares, << >> before resharing
          z, coefs   \* a combination of x and y
vars == <<a, b, x, y, z, coefs>>
Total(v) == Sh!SumOf(LAMBDA p : v[p], Party)
\* the dealers' polynomials add up to one with the sum of their secrets at 0 and an arbitrary rest
Dealt(v) == {[p \in Party |-> Sh!Eval(<<Total(v)>> \o r, p + 1)] : r \in [1..T-1 -> 0..F-1]}
Init == a \in [Party -> As] /\ b \in [Party -> Bs] /\ x = << >> /\ y = << >> /\ z = << >> /\ coefs = << >>
ReshareA == x = << >> /\ x' \in Dealt(a) /\ UNCHANGED <<a, b, y, z, coefs>>
ReshareB == x # << >> /\ y = << >> /\ y' \in Dealt(b) /\ UNCHANGED <<a, b, x, z, coefs>>
Lin == /\ y # << >> /\ z = << >>
       /\ coefs' \in Coefs
       /\ z' = [p \in Party |-> (coefs'[1] * x[p] + coefs'[2] * y[p]) % F]
       /\ UNCHANGED <<a, b, x, y>>
Next == ReshareA \/ ReshareB \/ Lin
Spec == Init /\ [][Next]_vars
\* the code: interpolate from the first T shares at hand
RevealAt(v, p, lost) == LET have == {q + 1 : q \in S!Quorum(p, Party, lost)}
                        IN IF Cardinality(have) < T THEN "none" ELSE Sh!Interpolate([k \in 1..N |-> v[k-1]], Sh!Smallest(T, have), 0)
Lost(p) == {{<<q, p>> : q \in Q} : Q \in SUBSET (Party \ {p})}
Right(v, secret) == \A p \in Party : \A lost \in Lost(p) :
    IF S!Enough(p, Party, lost, T) THEN RevealAt(v, p, lost) = secret ELSE RevealAt(v, p, lost) = "none"
Revealed == (x # << >> => Right(x, Total(a))) /\ (y # << >> => Right(y, Total(b)))
Combined == z # << >> => Right(z, S!Combination(coefs[1], coefs[2], Total(a), Total(b)))
Degree == \A v \in {x, y, z} \ {<< >>} : Sh!DegreeBelow(T, [k \in 1..N |-> v[k-1]])
=============================================================================
