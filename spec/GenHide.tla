-------------------------------- MODULE GenHide --------------------------------
(* Products whose ciphertexts are looked at: factors of all kinds, several     *)
(* times the same, with and without masks that are planned to be 0.            *)
EXTENDS ArithBase
P(n, k, l) == LET a == Secrets(n, k) b == Secrets(n, l) IN Scen(n, At("h"), <<Watch(PrivMult(a, b)), Watch(PrivMult(a, b)), Watch(PrivMult(b, a))>>)
ASSUME \A n \in 2..3 : \A k, l \in DOMAIN Kinds : PrintT(ToJson(P(n, Kinds[k], Kinds[l])))
ASSUME \A n \in 4..5 : \A k \in DOMAIN Kinds : PrintT(ToJson(P(n, Kinds[k], "any" \o Str(k))))
Many(n, k) == Scen(n, At("h"), [j \in 1..k |-> Watch(PrivMult(Secrets(n, Pick("k" \o Str(j), Kinds)), Secrets(n, Pick("l" \o Str(j), Kinds))))])
ASSUME PrintT(ToJson(Many(2, 40))) /\ PrintT(ToJson(Many(3, 14))) /\ PrintT(ToJson(Many(5, 5)))
M(n) == Scen(n, At("h"), <<Gen("a"), Gen("b"), Watch(Mult("a", "b", "c")), Watch(Mult("a", "b", "d")), Watch(Mult("b", "b", "e")), Watch(Mult("b", "a", "f"))>>)
ASSUME \A n \in 2..4 : PrintT(ToJson(M(n)))
Z(n, z) == Scen(n, At("h"), <<Zeros(Watch(PrivMult(Secrets(n, "any"), Secrets(n, "max"))), z), Zeros(Watch(PrivMult(Secrets(n, "zero"), Secrets(n, "any"))), z), Zeros(Watch(PrivMult(Secrets(n, "small"), Secrets(n, "one"))), z)>>)
ASSUME \A n \in 2..4 : \A z \in {20, 50} : PrintT(ToJson(Z(n, z)))
\* many parties
ASSUME \A n \in {6, 8} : PrintT(ToJson(Scen(n, At("h"), <<Watch(PrivMult(Secrets(n, "any"), Secrets(n, "some")))>>)))
=============================================================================
