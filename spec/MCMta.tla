--------------------------------- MODULE MCMta ---------------------------------
(* All shares and masks modulo 5: the shares of the product add up.            *)
EXTENDS Integers, FiniteSets, TLC
Q == 5
M == INSTANCE Mta
S == 0..Q-1
\* two parties
ASSUME Two == \A n0 \in {52, 53, 77} : \A a, b \in [0..1 -> S] : \A t0, t1 \in S :
    LET share0 == (a[0] * b[0] + t0 + M!Half(a[0], b[1], t1, n0)) % Q
        share1 == (a[1] * b[1] + t1 + M!Half(a[1], b[0], t0, 53)) % Q
    IN M!Big(n0) /\ (share0 + share1) % Q = ((a[0] + a[1]) * (b[0] + b[1])) % Q
\* three parties; t[p][q]: the mask of p towards q
Key(p) == 53 + 2 * p
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Share(p, a, b, t) == (a[p] * b[p] + Sum([q \in 0..2 |-> t[<<p, q>>] + M!Half(a[p], b[q], t[<<q, p>>], Key(p))], (0..2) \ {p})) % Q
Masks == {[pq \in (0..2) \X (0..2) |-> ((x * pq[1] + y * pq[2]) + x) % Q] : x, y \in S}
ASSUME Three == \A a \in [0..2 -> {0, 1, 4}], b \in [0..2 -> {0, 3, 4}] : \A t \in Masks :
    Sum([p \in 0..2 |-> Share(p, a, b, t)], 0..2) % Q = (Sum(a, 0..2) * Sum(b, 0..2)) % Q
\* the keys have to be that large
ASSUME Small == \E a, b, t \in S : (t + M!Half(a, b, t, 26)) % Q # (a * b) % Q
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
