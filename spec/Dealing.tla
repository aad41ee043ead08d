-------------------------------- MODULE Dealing --------------------------------
(* What a dealer sends in the six rounds of a resharing, as tags of where the  *)
(* message comes from: "own" the dealer's execution, "twin" another execution  *)
(* on the same secret with other randomness, "other" an execution on another   *)
(* secret, "gone" nothing, anything else a message that no execution sends.    *)
(*   1 proof of knowledge of the secret   2 commitment to the coefficients     *)
(*   3 its opening   4 commitments to the evaluations   5 the evaluation for   *)
(*   this party   6 the refreshed commitment to the share                      *)
EXTENDS Integers, Sequences
Genuine == {"own", "twin"}
Good(m, r) == CASE r = 1 -> m[1] \in Genuine
                [] r = 2 -> m[2] # "gone"
                [] r = 3 -> m[3] \in Genuine /\ m[3] = m[2]
                [] OTHER -> m[r] = m[3]
Found(m) == {r \in 1..6 : ~Good(m, r)}
\* the round in which a receiver of m notices; 0: m is what an honest dealer may send
Noticed(m) == IF Found(m) = {} THEN 0 ELSE CHOOSE r \in Found(m) : \A q \in Found(m) : r <= q
=============================================================================
