------------------------------- MODULE GenMasks --------------------------------
(* Generations, keys, products and checks whose randomness is looked at: many  *)
(* in a row, of secrets of all kinds, with ordinary randomness.                *)
EXTENDS ArithBase
W(o) == Watch(o)
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN << >> ELSE Append(Cat(f, k - 1), f[k])
Gens(k) == [j \in 1..k |-> W(Gen("a" \o Str(j)))]
DKeys(k) == [j \in 1..k |-> W(DKey("k" \o Str(j)))]
Checks(key, us, x) == [j \in DOMAIN us |-> W(CheckDH(key, us[j], SMul(us[j], x)))]
ASSUME \A n \in 2..5 : \A j \in 1..2 : PrintT(ToJson(Scen(n, At("h" \o Str(j)), Gens(36 \div n + 2))))
ASSUME \A n \in 2..5 : \A j \in 1..2 : PrintT(ToJson(Scen(n, At("h"), DKeys(70 \div n + 2))))
\* checks: right and wrong ones
Us == <<"1", M1, At("u"), "2", At("w"), "1", At("u"), At("u")>>
Ch(n, xs) == Scen(n, "1", <<NewKey("k", xs)>> \o Checks("k", Us, Sum(xs)) \o Checks("k", Us, SAdd(Sum(xs), "1")) \o Checks("k", Us, "1") \o <<W(CheckDH("k", "0", At("v"))), W(CheckDH("k", "0", "0"))>>)
ASSUME \A n \in 2..4 : \A k \in DOMAIN Kinds : PrintT(ToJson(Ch(n, Secrets(n, Kinds[k]))))
\* products
Mu(n, k) == Scen(n, At("h"), <<W(Gen("a")), W(Gen("b"))>> \o [j \in 1..k |-> W(Mult(IF j % 2 = 0 THEN "a" ELSE "b", IF j % 3 = 0 THEN "a" ELSE "b", "c" \o Str(j)))] \o <<W(Mult("a", "c1", "d")), W(Mult("c1", "a", "e")), Reshare("d", "x", n), Reveal("x")>>)
ASSUME \A n \in 2..4 : \A j \in 1..2 : PrintT(ToJson([Mu(n, 26 \div (n * n - n) + 2) EXCEPT !.h = At("h" \o Str(j))]))
\* a mixture
Mix(n, name) == Scen(n, At("h"), Flat([j \in 1..8 |-> CASE Rand(name \o Str(j), 3) = 0 -> <<W(Gen("a" \o Str(j)))>> [] Rand(name \o Str(j), 3) = 1 -> <<W(DKey("k" \o Str(j)))>> [] OTHER -> <<W(Gen("b")), W(Gen("c")), W(Mult("b", "c", "d")), Reshare("b", "x", 1)>>]))
ASSUME \A n \in 2..4 : \A j \in 1..4 : PrintT(ToJson(Mix(n, "mix" \o Str(n) \o Str(j))))
\* many parties
ASSUME \A n \in {8, 13} : PrintT(ToJson(Scen(n, At("h"), Gens(3)))) /\ PrintT(ToJson(Scen(n, At("h"), DKeys(3))))
ASSUME PrintT(ToJson(Mu(6, 2))) /\ PrintT(ToJson([Ch(8, Secrets(8, "any")) EXCEPT !.ops = SubSeq(@, 1, 6)]))
=============================================================================
