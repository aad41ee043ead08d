------------------------------ MODULE GenSecrecy ------------------------------
(* Resharings whose private messages are looked at: several in a row, of the   *)
(* same and of other secrets, with ordinary randomness and with much of it 0.  *)
EXTENDS ArithBase
W(n, t, kind) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, kind)), Watch(Reshare("a", "x", t)), Watch(Reshare("a", "y", t)), Gen("b"), Watch(Reshare("b", "z", t)), Reveal("z"), Watch(Reshare("a", "u", n))>>)
Z(n, t, kind, k) == Scen(n, At("h"), <<Zeros(GenOf(n, "a", Secrets(n, kind)), k), Watch(Zeros(Reshare("a", "x", t), k)), Watch(Zeros(Reshare("a", "y", t), k)), Watch(Zeros(Reshare("a", "z", t), k))>>)
\* a threshold secret is reshared, too
R(n, t) == Scen(n, At("h"), <<Gen("a"), Watch(Reshare("a", "x", t)), Reveal("x"), Watch(Reshare("x", "y", t)), Watch(Reshare("y", "z", n))>>)
Ts(n) == IF n = 5 THEN {1, 3, 5} ELSE 1..n
ASSUME \A n \in 2..5 : \A t \in Ts(n) : \A kind \in {"any", "zero", "max", "same", "small"} : PrintT(ToJson(W(n, t, kind)))
ASSUME \A n \in 2..5 : \A t \in Ts(n) : \A k \in {30, 50, 70, 100} : \A kind \in (IF k < 60 THEN {"any"} ELSE {"zero"}) : PrintT(ToJson(Z(n, t, kind, k)))
ASSUME \A n \in 2..5 : \A t \in Ts(n) : PrintT(ToJson(R(n, t)))
\* many parties
ASSUME \A c \in {<<9, 5>>, <<7, 7>>, <<12, 2>>} : PrintT(ToJson(R(c[1], c[2]))) /\ PrintT(ToJson(Scen(c[1], At("h"), <<GenOf(c[1], "a", Secrets(c[1], "any")), Watch(Reshare("a", "x", c[2]))>>)))
=============================================================================
