-------------------------------- MODULE GenLin ---------------------------------
(* Linear combinations with coefficients of all kinds, of threshold secrets    *)
(* that were reshared, multiplied or combined before.                          *)
EXTENDS ArithBase
Coefs == <<"0", "1", M1, Order, ZAdd(Order, "1"), ZAdd(Two256, At("long")), At("al"), At("be"), "2">>
Few(x, n, t) == <<Reveal(x), Exp(x)>> \o (IF n = 1 THEN << >> ELSE <<Net(Reveal(x), [k \in 1..(n - t) |-> Drop(1, ((k + t) % n), -1)]), Net(Exp(x), [k \in 1..(n - t) |-> Drop(1, (k % n), -1)]),
    Net(Reveal(x), [k \in 1..(n - t + 1) |-> Drop(1, k - 1, -1)]), Net(Exp(x), [k \in 1..(n - t + 1) |-> Drop(1, k - 1, -1)])>>)
Ops(n, t, al, be) == <<Reshare("a", "x", t), Reshare("b", "y", t), Lin(al, "x", be, "y", "z")>> \o Few("z", n, t) \o <<Reveal("x"), Exp("y"), Reveal("y"), Exp("x")>>
    \o <<Lin(be, "z", al, "x", "u")>> \o Few("u", n, t) \o <<Lin(M1, "u", "1", "u", "o"), Reveal("o"), Exp("o"), Lin("2", "x", al, "x", "s")>> \o Few("s", n, t)
    \o <<Reveal("z"), Reveal("x"), Reveal("y"), Reshare("s", "r", t), Reveal("r"), Reveal("s"), Reshare("z", "q", n), Reveal("q")>>
S(n, t, ka, kb, al, be) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, ka)), GenOf(n, "b", Secrets(n, kb))>> \o Ops(n, t, al, be))
ASSUME \A n \in 1..4 : \A t \in 1..n : \A k \in DOMAIN Coefs : PrintT(ToJson(S(n, t, "any", "nil", Coefs[k], Coefs[((k + n + 2 * t) % Len(Coefs)) + 1])))
ASSUME \A i, j \in DOMAIN Coefs : PrintT(ToJson(S(2, 2, "any", "max", Coefs[i], Coefs[j])))
ASSUME \A k \in DOMAIN Kinds : \A l \in DOMAIN Kinds : PrintT(ToJson(S(3, 2, Kinds[k], Kinds[l], At("al" \o Str(k)), At("be" \o Str(l)))))
\* of products
P(n, t) == Scen(n, At("h"), <<Gen("a"), Gen("b"), Mult("a", "b", "c"), Reshare("c", "z", t), Reshare("a", "x", t), Lin(At("al"), "z", M1, "x", "l"), Reveal("l"), Exp("l"), Reveal("z"), Lin("1", "l", "1", "z", "m"), Reveal("m"), Reveal("x")>>)
ASSUME \A n \in 2..3 : \A t \in 1..n : PrintT(ToJson(P(n, t)))
\* long chains
RECURSIVE Chain(_, _)
Chain(k, m) == IF k > m THEN << >> ELSE <<Lin(At("c" \o Str(k)), IF k = 1 THEN "x" ELSE "l" \o Str(k - 1), Pick("d" \o Str(k), Coefs), IF (k % 3) = 0 THEN "y" ELSE "x", "l" \o Str(k))>> \o Chain(k + 1, m)
ASSUME \A n \in 2..4 : PrintT(ToJson(Scen(n, At("h"), <<Gen("a"), Gen("b"), Reshare("a", "x", n - 1), Reshare("b", "y", n - 1)>> \o Chain(1, 12) \o <<Reveal("l12"), Exp("l12"), Reveal("l5"), Reveal("x"), Reveal("y"), Exp("l1")>>)))
\* many parties
ASSUME \A c \in {<<9, 4>>, <<7, 7>>} : PrintT(ToJson(S(c[1], c[2], "any", "nil", At("al"), At("be"))))
=============================================================================
