-------------------------------- MODULE Masking --------------------------------
(* What hides the secrets of the protocols, in a group of order Q written      *)
(* additively, each point as its logarithm.                                    *)
EXTENDS Integers, FiniteSets
CONSTANTS Q
F == 0..Q-1
\* a commitment to s under h, and what two commitments with the same randomizer give away
Commit(s, r, h) == <<r, (r * h + s) % Q>>
Difference(c, d) == IF c[1] = d[1] THEN (c[2] - d[2]) % Q ELSE -1
\* the test values of the Diffie-Hellman check
TestV(u, al, be) == (al * u + be) % Q
VerifyV(v, x, al, be) == (al * v + be * x) % Q
\* what A learns from the answer a b - t in a multiplication, t below K
Answers(a, b, K) == {a * b - t : t \in 0..(K - 1)}
=============================================================================
