-------------------------------- MODULE DHCheck --------------------------------
(* Do v = x * u and the public key x * G agree? Every party p with share k[p]   *)
(* of x publishes al * u + be * G and al * v + be * X, then k[p] times the sum  *)
(* of the first; the sum of these must be the sum of the second. Points are     *)
(* their discrete logarithms here.                                              *)
EXTENDS Integers, FiniteSets
CONSTANTS Q, Party
RECURSIVE Add(_, _)
Add(f, D) == IF D = {} THEN 0 ELSE LET p == CHOOSE p \in D : TRUE IN (f[p] + Add(f, D \ {p})) % Q
Test(u, al, be) == [p \in Party |-> (al[p] * u + be[p]) % Q]
Verify(v, x, al, be) == [p \in Party |-> (al[p] * v + be[p] * x) % Q]
Accepts(u, v, k, al, be) ==
    LET x == Add(k, Party)
        t == Add(Test(u, al, be), Party)
    IN Add([p \in Party |-> (k[p] * t) % Q], Party) = Add(Verify(v, x, al, be), Party)
=============================================================================
