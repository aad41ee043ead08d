-------------------------------- MODULE MCShares --------------------------------
(* What fewer than T parties and the messages of one signature tell about a    *)
(* presignature, over Z_5: its rho and eta stay undetermined, each of them     *)
(* could have any value but at most one. A second signature from the same      *)
(* presignature tells them. This is why shares have exactly degree T - 1, are  *)
(* never used again, and why a presignature signs once.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Rs
F == 5
Party == 0..N-1
InvTable == [a \in 1..F-1 |-> CHOOSE x \in 1..F-1 : (a * x) % F = 1]
Sh == INSTANCE Sharing WITH FAdd <- LAMBDA a, b : (a + b) % F, FSub <- LAMBDA a, b : (a - b) % F, FMul <- LAMBDA a, b : (a * b) % F, FInv <- LAMBDA a : InvTable[a], FInt <- LAMBDA a : a % F
Exact == {f \in [1..T -> 0..F-1] : f[T] # 0}
VARIABLES rho, eta, tau, r,  \* polynomials of the presignature; r is fixed with its nonce
          signed             \* the messages
vars == <<rho, eta, tau, r, signed>>
Init == /\ rho \in {f \in Exact : f[1] \in {0, 2} /\ \A k \in 2..T : f[k] \in {1, 3}} /\ eta \in {f \in Exact : f[1] \in {0, 4} /\ \A k \in 2..T : f[k] \in {2, 3}}
        /\ tau \in {f \in Exact : f[1] \in {1, 3} /\ \A k \in 2..T : f[k] = 1} /\ r \in Rs /\ signed = << >>
Sign == /\ Len(signed) < 2 /\ \E m \in 0..F-1 : signed' = Append(signed, m)
        /\ UNCHANGED <<rho, eta, tau, r>>
Spec == Init /\ [][Sign]_vars
\* the shares of s that are published
Ss(f, g, m) == [k \in 1..T |-> (InvTable[tau[1]] * (m * f[k] + r * g[k])) % F]
\* what could rho and eta be for those in A?
Possible(A) == {<<f, g>> \in Exact \X Exact : /\ \A p \in A : Sh!Eval(f, p + 1) = Sh!Eval(rho, p + 1) /\ Sh!Eval(g, p + 1) = Sh!Eval(eta, p + 1)
                                              /\ \A k \in DOMAIN signed : Ss(f, g, signed[k]) = Ss(rho, eta, signed[k])}
Values(P, i) == {x[i][1] : x \in P}
Coalitions == {A \in SUBSET Party : Cardinality(A) = T - 1}
Hidden == signed = << >> => \A A \in Coalitions : LET P == Possible(A) IN Cardinality({<<x[1][1], x[2][1]>> : x \in P}) >= (F - 1) * (F - 1)
\* one equation between them is known. Where it has one unknown, that one is known to those who see s and r.
Once == Len(signed) = 1 => \A A \in Coalitions : LET P == Possible(A) IN
    /\ r # 0 /\ signed[1] # 0 => Cardinality(Values(P, 1)) >= F - 2 /\ Cardinality(Values(P, 2)) >= F - 2
    /\ signed[1] = 0 => Cardinality(Values(P, 1)) >= F - 1
Twice == Len(signed) = 2 /\ signed[1] # signed[2] /\ r # 0 => \A A \in Coalitions : Possible(A) = {<<rho, eta>>}
=============================================================================
