-------------------------------- MODULE MCEC --------------------------------
(* The formulas of EC over Z_43: all points, all pairs, all triples.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigZ
P == 43
N == 31
Mod(a) == a % P
Inv(a) == CHOOSE x \in 1..P-1 : (a * x) % P = 1
InvTable == [a \in 1..P-1 |-> Inv(a)]
RECURSIVE Bits(_)
Bits(k) == IF k = 0 THEN 0 ELSE 1 + Bits(k \div 2)
E == INSTANCE EC WITH FAdd <- LAMBDA a, b : (a + b) % P, FSub <- LAMBDA a, b : (a - b) % P,
        FMul <- LAMBDA a, b : (a * b) % P, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % P,
        FBits <- LAMBDA k : Bits(k), FBit <- LAMBDA k, i : (k \div (2^i)) % 2

Points == {E!Inf} \cup {p \in (0..P-1) \X (0..P-1) : E!OnCurve(p)}
Gen == <<2, 12>>

ASSUME Cardinality(Points) = N
ASSUME Gen \in Points
ASSUME Closed == \A a, b \in Points : E!PAdd(a, b) \in Points
ASSUME Identity == \A a \in Points : E!PAdd(a, E!Inf) = a /\ E!PAdd(E!Inf, a) = a
ASSUME Inverse == \A a \in Points : E!PAdd(a, E!PNeg(a)) = E!Inf
ASSUME Commutes == \A a, b \in Points : E!PAdd(a, b) = E!PAdd(b, a)
ASSUME Associates == \A a, b, c \in Points : E!PAdd(E!PAdd(a, b), c) = E!PAdd(a, E!PAdd(b, c))
ASSUME Cyclic == {E!PMul(k, Gen) : k \in 0..N-1} = Points
ASSUME Scalars == \A a \in Points, k \in 0..2*N+1 :
                      /\ E!PMul(k + 1, a) = E!PAdd(E!PMul(k, a), a)
                      /\ E!PMul(k, a) = E!PMul(k % N, a)
ASSUME NegIsScalar == \A a \in Points : E!PNeg(a) = E!PMul(N - 1, a)
ASSUME Distributes == \A a, b \in Points, k \in {0, 1, 2, 3, 15, N - 1, N, N + 1} :
                      E!PMul(k, E!PAdd(a, b)) = E!PAdd(E!PMul(k, a), E!PMul(k, b))

\* the accelerated scalar multiplication agrees with the definition ...
Hex(a) == ZInt(a)
HexPt(a) == IF a = E!Inf THEN << >> ELSE <<Hex(a[1]), Hex(a[2])>>
ASSUME AccelSmall == \A a \in Points, k \in 0..2*N :
                      ZPointMul(Hex(k), HexPt(a), Hex(P)) = HexPt(E!PMul(k, a))
=============================================================================
