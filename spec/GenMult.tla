-------------------------------- MODULE GenMult --------------------------------
(* Products: shares of all kinds, all numbers of parties; products of products,*)
(* reshared, revealed and combined.                                            *)
EXTENDS ArithBase
ASSUME \A n \in 1..4 : \A k, l \in DOMAIN Kinds : PrintT(ToJson(Scen(n, At("h"), <<PrivMult(Secrets(n, Kinds[k]), Secrets(n, Kinds[l])), PrivMult(Secrets(n, Kinds[k] \o "2"), Secrets(n, Kinds[l]))>>)))
S(n, t, k, l) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, k)), GenOf(n, "b", Secrets(n, l)), Mult("a", "b", "c"), Reshare("c", "x", t), Reveal("x"), Exp("x"), Reshare("a", "y", t), Reveal("y"), Lin(At("al"), "x", At("be"), "y", "z"), Reveal("z")>>)
ASSUME \A n \in 1..3 : \A t \in 1..n : \A k \in {"zero", "max", "any", "nil"} : \A l \in {"some", "max", "any"} : PrintT(ToJson(S(n, t, k, l)))
ASSUME \A t \in 1..4 : PrintT(ToJson(S(4, t, "any", "any" \o Str(t))))
\* chains, squares
C(n) == Scen(n, At("h"), <<Gen("a"), Gen("b"), Mult("a", "a", "c"), Mult("c", "b", "d"), Mult("b", "c", "e"), Reshare("d", "x", n), Reshare("e", "y", n), Reshare("c", "w", 1), Reveal("w"), Lin("1", "x", M1, "y", "z"), Reveal("z"), Reveal("x"), Exp("y")>>)
ASSUME \A n \in 1..4 : PrintT(ToJson(C(n)))
\* the masks are zero or as large as they can be
D(n, x) == Scen(n, At("h"), <<With(PrivMult(Secrets(n, "any"), Secrets(n, "max")), Draws(n, LAMBDA q : [k \in 1..(n + 1) |-> x])), With(PrivMult(Secrets(n, "zero"), Secrets(n, "any")), Draws(n, LAMBDA q : [k \in 1..(n + 1) |-> x])), With(PrivMult(Secrets(n, "small"), Secrets(n, "one")), Draws(n, LAMBDA q : [k \in 1..(n + 1) |-> x]))>>)
Z(n) == Scen(n, At("h"), <<Zeros(PrivMult(Secrets(n, "any"), Secrets(n, "max")), 40), Zeros(PrivMult(Secrets(n, "zero"), Secrets(n, "any")), 40), Zeros(PrivMult(Secrets(n, "max"), Secrets(n, "max")), 3)>>)
ASSUME \A n \in 1..4 : PrintT(ToJson(Z(n)))
ASSUME \A n \in 1..5 : \A x \in {"0", "1", M1} : PrintT(ToJson(D(n, x)))
\* many parties
ASSUME \A n \in {6, 8} : PrintT(ToJson(Scen(n, At("h"), <<PrivMult(Secrets(n, "any"), Secrets(n, "max")), PrivMult(Secrets(n, "some"), Secrets(n, "small"))>>)))
ASSUME PrintT(ToJson(S(6, 4, "any", "max")))
=============================================================================
