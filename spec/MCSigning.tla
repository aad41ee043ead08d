------------------------------- MODULE MCSigning -------------------------------
(* Signing by parties that hold shares over Z_5: after the nonce was           *)
(* exchanged they reveal tau, combine their shares of rho and eta, and reveal  *)
(* the result. Whatever messages are lost, those who finish have one and the   *)
(* same s, and it satisfies the equation; they are the ones that Signing says. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Messages
F == 5
Party == 0..N-1
InvTable == [a \in 1..F-1 |-> CHOOSE x \in 1..F-1 : (a * x) % F = 1]
Sh == INSTANCE Sharing WITH FAdd <- LAMBDA a, b : (a + b) % F, FSub <- LAMBDA a, b : (a - b) % F, FMul <- LAMBDA a, b : (a * b) % F, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % F
S == INSTANCE Signing WITH SAdd <- LAMBDA a, b : (a + b) % F, SMul <- LAMBDA a, b : (a * b) % F
VARIABLES rho, eta, tau,          \* polynomials
          m, r,
          stage, alive, losses, view, got
vars == <<rho, eta, tau, m, r, stage, alive, losses, view, got>>
\* with the given values at 0
Of(secrets, rest) == {[k \in 1..T |-> IF k = 1 THEN x ELSE (rest * k) % F] : x \in secrets}
Init == rho \in Of({0, 2}, 3) /\ eta \in Of({0, 1, 4}, 2) /\ tau \in Of({1, 3}, 1) /\ m \in Messages /\ r \in {0, 3} /\ stage = 0 /\ alive = Party /\ losses = << >>
        /\ view = [p \in Party |-> -1] /\ got = [p \in Party |-> -1]
\* silent towards everybody, and one single message
Some2 == {{<<q, p>> : q \in Q, p \in Party} : Q \in SUBSET Party} \cup {{<<q, p>>} : q \in Party, p \in Party}
Have(p, lost) == {q + 1 : q \in {q \in alive : q = p \/ <<q, p>> \notin lost}}
At0(share(_), have) == Sh!Interpolate([k \in 1..N |-> share(k)], Sh!Smallest(T, have), 0)
Inv(a) == InvTable[a]
Share(p, k) == (Sh!Eval(rho, k) * ((m * Inv(view[p])) % F) + Sh!Eval(eta, k) * ((r * Inv(view[p])) % F)) % F
Exchange ==
    /\ stage < 3
    /\ \E lost \in Some2 :
        /\ losses' = Append(losses, lost)
        /\ alive' = {p \in alive : Cardinality(Have(p, lost)) >= T}
        /\ view' = IF stage = 1 THEN [p \in Party |-> IF p \in alive' THEN At0(LAMBDA k : Sh!Eval(tau, k), Have(p, lost)) ELSE -1] ELSE view
        /\ got' = IF stage = 2 THEN [p \in Party |-> IF p \in alive' THEN At0(LAMBDA k : Share(k - 1, k), Have(p, lost)) ELSE -1] ELSE got
    /\ stage' = stage + 1
    /\ UNCHANGED <<rho, eta, tau, m, r>>
Spec == Init /\ [][Exchange]_vars
AsSpecified == alive = S!After(Party, losses, T)
Right == stage = 3 => \A p \in alive : S!Equation(m, r, got[p], rho[1], eta[1], tau[1]) /\ view[p] = tau[1]
Same == \A p, q \in alive : got[p] = got[q]
=============================================================================
