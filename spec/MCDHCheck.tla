------------------------------- MODULE MCDHCheck -------------------------------
(* All tuples, keys and random choices of two parties in a group of order 5.   *)
EXTENDS Integers, FiniteSets, TLC
Q == 5
Party == {0, 1}
D == INSTANCE DHCheck
S == 0..Q-1
ASSUME Complete == \A u, k0, k1, a0, a1, b0, b1 \in S :
    D!Accepts(u, (u * (k0 + k1)) % Q, [p \in Party |-> IF p = 0 THEN k0 ELSE k1], [p \in Party |-> IF p = 0 THEN a0 ELSE a1], [p \in Party |-> IF p = 0 THEN b0 ELSE b1])
\* a wrong tuple passes only if the blinding factors cancel, one choice of an honest party's factor among all
ASSUME Sound == \A u, v, k0, k1, a0, a1, b0 \in S :
    v # (u * (k0 + k1)) % Q =>
    (D!Accepts(u, v, [p \in Party |-> IF p = 0 THEN k0 ELSE k1], [p \in Party |-> IF p = 0 THEN a0 ELSE a1], [p \in Party |-> IF p = 0 THEN b0 ELSE 0]) <=> (a0 + a1) % Q = 0)
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
