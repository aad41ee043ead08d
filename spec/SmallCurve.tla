----------------------------- MODULE SmallCurve ------------------------------
(* The curve y^2 = x^3 + 7 over Z_43; its group has the prime order 31.       *)
EXTENDS Integers, Sequences
P == 43
N == 31
InvTable == [a \in 1..P-1 |-> CHOOSE x \in 1..P-1 : (a * x) % P = 1]
RECURSIVE SBits(_)
SBits(k) == IF k = 0 THEN 0 ELSE 1 + SBits(k \div 2)
E == INSTANCE EC WITH FAdd <- LAMBDA a, b : (a + b) % P, FSub <- LAMBDA a, b : (a - b) % P,
        FMul <- LAMBDA a, b : (a * b) % P, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % P,
        FBits <- LAMBDA k : SBits(k), FBit <- LAMBDA k, i : (k \div (2^i)) % 2
Gen == <<2, 12>>
Powers == [k \in 0..N-1 |-> E!PMul(k, Gen)]
Points == {Powers[k] : k \in 0..N-1}
Sum == [a \in Points, b \in Points |-> E!PAdd(a, b)]
Log == [a \in Points |-> CHOOSE k \in 0..N-1 : Powers[k] = a]
=============================================================================
