------------------------------- MODULE MCMasking -------------------------------
(* Which masks hide, and which do not. A view is a possible one for every      *)
(* secret, with the same number of random choices that lead to it.             *)
EXTENDS Masking, TLC
\* fresh randomizers: two commitments are equal in the first part for one choice in Q; then, and only then, they tell more
ASSUME Fresh == \A s1, s2, h \in F : Cardinality({r \in F \X F : Difference(Commit(s1, r[1], h), Commit(s2, r[2], h)) # -1}) = Q
ASSUME Reused == \A s1, s2, h, r \in F : Difference(Commit(s1, r, h), Commit(s2, r, h)) = (s1 - s2) % Q
\* the tuple tested is a uniform correct one if the given one is correct, and any pair otherwise
ASSUME Correct == \A u, x \in F : \A t \in F : Cardinality({m \in F \X F : TestV(u, m[1], m[2]) = t /\ VerifyV((u * x) % Q, x, m[1], m[2]) = (t * x) % Q}) = Q
ASSUME Wrong == \A u, v, x \in F : v # (u * x) % Q => \A t, w \in F : Cardinality({m \in F \X F : TestV(u, m[1], m[2]) = t /\ VerifyV(v, x, m[1], m[2]) = w}) = 1
\* without one of the factors it is not so
ASSUME NoBeta == \E u \in F : Cardinality({TestV(u, al, 0) : al \in F}) < Q
ASSUME SameTwo == \E u \in F : Cardinality({TestV(u, al, al) : al \in F}) < Q
\* a mask much above Q^2: nearly all answers are answers for every factor; a mask below Q: the factor is known from one answer
Leaks(a, b, c, K) == Cardinality(Answers(a, b, K) \ Answers(a, c, K))
ASSUME Wide == \A K \in {Q * Q * 20, Q * Q * 40} : \A a, b, c \in F : Leaks(a, b, c, K) * 20 <= K
ASSUME Narrow == \A b, c \in F : b # c => \E a \in {Q - 1} : Leaks(a, b, c, Q - 1) * 2 > Q - 1
ASSUME Told == \A b, c \in F : b # c => Answers(2 * Q, b, Q) \cap Answers(2 * Q, c, Q) = {}
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
