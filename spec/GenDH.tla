--------------------------------- MODULE GenDH ---------------------------------
(* The Diffie-Hellman check: right and wrong tuples of all kinds.              *)
EXTENDS ArithBase
Us == {"0", "1", M1, At("u")}
\* v, from u and the secret x
Vs(u, x) == {SMul(u, x), SNeg(SMul(u, x)), SAdd(SMul(u, x), "1"), SAdd(SMul(u, x), M1), "0", u, SNeg(u), At("v"), x, SMul(x, x), SMul("2", SMul(u, x))}
Ks(n) == {Secrets(n, Kinds[k]) : k \in DOMAIN Kinds}
RECURSIVE Checks(_, _)
Checks(u, V) == IF V = {} THEN << >> ELSE LET v == CHOOSE v \in V : TRUE IN <<CheckDH("k", u, v)>> \o Checks(u, V \ {v})
S(n, xs, u) == Scen(n, "1", <<NewKey("k", xs)>> \o Checks(u, Vs(u, Sum(xs))))
ASSUME \A n \in 1..4 : \A xs \in Ks(n) : \A u \in Us : PrintT(ToJson(S(n, xs, u)))
\* a key that was generated; the blinding factors are special (but do not cancel out)
G(n, u) == LET xs == Secrets(n, "any") IN Scen(n, "1", <<With(DKey("k"), First(n, xs))>> \o Checks(u, Vs(u, Sum(xs))))
ASSUME \A n \in 1..5 : \A u \in Us : PrintT(ToJson(G(n, u)))
B(n, a, b) == LET xs == Secrets(n, "any") IN Scen(n, "1", <<NewKey("k", xs)>> \o [k \in DOMAIN Checks(At("u"), Vs(At("u"), Sum(xs))) |-> With(Checks(At("u"), Vs(At("u"), Sum(xs)))[k], Draws(n, LAMBDA q : <<IF q = 0 THEN a ELSE ZInt(3 + q), b>>))])
ASSUME \A n \in 2..4 : \A a \in {"1", M1, At("x")} : \A b \in {"0", M1, At("y")} : PrintT(ToJson(B(n, a, b)))
\* many parties
ASSUME \A n \in {7, 11} : PrintT(ToJson(S(n, Secrets(n, "any"), At("u")))) /\ PrintT(ToJson(G(n, At("w"))))
=============================================================================
