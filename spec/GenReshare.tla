------------------------------- MODULE GenReshare ------------------------------
(* Resharing: all numbers of parties and thresholds, secrets of all kinds,     *)
(* revealed by all quorums of t, used again afterwards, reshared again.        *)
EXTENDS ArithBase
Hs == <<At("h"), "1", M1, At("h2")>>
Quorums(n, t) == {Q \in SUBSET (0..(n-1)) : Cardinality(Q) = t}
\* every party reveals with the quorum that it belongs to
ByAll(x, n, t) == Flat(SetToSeq({<<Net(Reveal(x), Flat([p \in 1..n |-> IF (p-1) \in Q THEN Only(p-1, Q, n) ELSE << >>]))>> : Q \in Quorums(n, t)}))
One(n, t, kind, h) == Scen(n, h, <<GenOf(n, "a", Secrets(n, kind)), Reshare("a", "x", t), Reveal("x")>> \o ByAll("x", n, t)
    \o <<Reshare("a", "y", (t % n) + 1), Reveal("y"), Reshare("x", "z", t), Reveal("z"), Reveal("x"), Reshare("z", "w", n), Reveal("w"), Exp("w")>>)
ASSUME \A n \in 1..4 : \A t \in 1..n : \A k \in DOMAIN Kinds : PrintT(ToJson(One(n, t, Kinds[k], Hs[((k + t) % Len(Hs)) + 1])))
ASSUME \A n \in {5} : \A t \in 1..n : PrintT(ToJson(One(n, t, "any" \o Str(t), At("h"))))
ASSUME IOEnv.TIER = "thorough" => \A n \in {6, 7} : \A t \in 1..n : PrintT(ToJson(One(n, t, "any" \o Str(t), At("h"))))
\* randomness with many zeros
Zero(n, t, kind) == Scen(n, At("h"), <<Zeros(GenOf(n, "a", Secrets(n, kind)), 60), Zeros(Reshare("a", "x", t), 60), Reveal("x"), Exp("x"), Zeros(Reshare("a", "y", t), 95), Reveal("y"), Reshare("y", "z", t), Reveal("z")>>)
ASSUME \A n \in 1..4 : \A t \in 1..n : \A kind \in {"zero", "any", "nil"} : PrintT(ToJson(Zero(n, t, kind)))
\* thresholds that do not exist, and the secret used after the refusal
Bad(n, h) == Scen(n, h, <<GenOf(n, "a", Secrets(n, "any")), Reshare("a", "x", 0), Reshare("a", "x", n + 1), Reshare("a", "x", n + 2), Reshare("a", "x", 255), Reshare("a", "x", 256), Reshare("a", "x", 32768), Reshare("a", "x", 65535),
    Reshare("a", "x", n), Reveal("x"), Reshare("x", "y", 0), Reshare("x", "y", n + 1), Reveal("x")>>)
ASSUME \A n \in 1..4 : PrintT(ToJson(Bad(n, At("h"))))
\* many secrets under the same base
Many(n) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, "any")), GenOf(n, "b", Secrets(n, "nil")), Gen("c"), Reshare("b", "y", n), Reshare("a", "x", 1), Reshare("c", "z", 2), Reveal("z"), Reveal("x"), Reveal("y"), Reshare("c", "u", n), Reveal("u"), Reveal("z")>>)
ASSUME \A n \in 2..4 : PrintT(ToJson(Many(n)))
\* many parties: powers of their numbers beyond 32, 53 and 64 bits
Big(n, t) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, "any" \o Str(t))), Reshare("a", "x", t), Reveal("x")>>)
ASSUME \A c \in {<<9, 9>>, <<12, 11>>, <<17, 17>>, <<21, 2>>} : PrintT(ToJson(Big(c[1], c[2])))
=============================================================================
