------------------------------ MODULE MCSharing -------------------------------
(* The facts about sharing that the properties rest on, over Z_7, all         *)
(* polynomials and all sets of parties.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == 5
InvTable == [a \in 1..F-1 |-> CHOOSE x \in 1..F-1 : (a * x) % F = 1]
S == INSTANCE Sharing WITH FAdd <- LAMBDA a, b : (a + b) % F, FSub <- LAMBDA a, b : (a - b) % F, FMul <- LAMBDA a, b : (a * b) % F, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % F
Polys(t) == [1..t -> 0..F-1]
Exact(t) == {f \in Polys(t) : t = 1 \/ f[t] # 0}
Points(n) == 1..n
Shares(f, n) == [j \in Points(n) |-> S!Eval(f, j)]
Sets(n, k) == {A \in SUBSET Points(n) : Cardinality(A) = k}
\* any t shares determine the secret and all other shares
ASSUME Enough == \A n \in 2..3 : \A t \in 1..n : \A f \in Polys(t) : \A A \in Sets(n, t) :
    /\ S!Interpolate(Shares(f, n), A, 0) = f[1]
    /\ \A x \in Points(n) : S!Interpolate(Shares(f, n), A, x) = S!Eval(f, x)
\* t - 1 shares are consistent with every secret, with exact degree with all but at most one
ASSUME Hidden == \A n \in 2..3 : \A t \in 1..n : \A A \in Sets(n, t - 1) : \A f \in Exact(t) :
    LET seen == [j \in A |-> S!Eval(f, j)]
        possible == {g[1] : g \in {h \in Exact(t) : \A j \in A : S!Eval(h, j) = seen[j]}}
    IN Cardinality(possible) >= IF t = 1 THEN F ELSE F - 1
\* with a lower degree they are not
ASSUME Needed == \E f \in Polys(3) : f[3] = 0 /\ \A g \in Polys(2) : (\A j \in {1, 2} : S!Eval(g, j) = S!Eval(f, j)) => g[1] = f[1]
\* sums of polynomials, linear combinations
ASSUME Linear == \A t \in 1..2 : \A f, g \in Polys(t) : \A al, be \in {0, 1, 3, 4} :
    LET h == [j \in Points(3) |-> (al * S!Eval(f, j) + be * S!Eval(g, j)) % F]
    IN \A A \in Sets(3, t) : S!Interpolate(h, A, 0) = (al * f[1] + be * g[1]) % F
ASSUME Degree == \A n \in 2..3 : \A t \in 1..3 : \A f \in Polys(t) : S!DegreeBelow(t, Shares(f, n)) /\ (t > 1 /\ n >= t /\ f[t] # 0 => ~S!DegreeBelow(t - 1, Shares(f, n)))
ASSUME Lead == \A n \in 2..3 : \A t \in 1..n : \A f \in Polys(t) : \A A \in Sets(n, t) : S!Leading(Shares(f, n), A) = f[t]
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
