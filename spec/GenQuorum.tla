------------------------------- MODULE GenQuorum -------------------------------
(* Revealing and exponentiating with all sets of silent parties, different     *)
(* ones for different receivers, and with transmissions that fail.             *)
EXTENDS ArithBase
Parties(n) == 0..(n-1)
Both(x, rules) == <<Net(Reveal(x), rules), Net(Exp(x), rules)>>
\* every subset of silent parties, towards all
Silent(n, x) == Flat(SetToSeq({Both(x, [k \in 1..Cardinality(G) |-> Drop(1, SetToSeq(G)[k], -1)]) : G \in SUBSET Parties(n)}))
\* towards one party only, every subset; the others hear a random selection
Towards(n, x, p) == Flat(SetToSeq({Both(x, Only(p, Q, n) \o Flat([q \in 1..n |-> IF q - 1 = p THEN << >> ELSE Only(q - 1, {s \in Parties(n) : Rand("o" \o Str(q) \o Str(s) \o Str(p) \o Str(Cardinality(Q)), 2) = 0}, n)])) : Q \in SUBSET (Parties(n) \ {p})}))
\* one party cannot send to another, but hears it
Refuse(n, x, p, q) == Both(x, <<Rule(1, p, q, "refuse", 0)>>) \o Both(x, <<Rule(1, p, -1, "refuse", 0)>>) \o Both(x, <<Rule(1, p, q, "refuse", 0), Drop(1, q, p)>>)
\* nothing that can be decoded
Unread(n, x, p) == <<Net(Exp(x), <<Rule(1, p, -1, "empty", 0)>>), Net(Exp(x), [k \in 1..(n-1) |-> Rule(1, (p + k) % n, p, "empty", 0)])>>
One(n, t, kind) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, kind)), Reshare("a", "x", t)>> \o Silent(n, "x") \o Towards(n, "x", t % n) \o (IF n > 1 THEN Refuse(n, "x", 0, n - 1) \o Unread(n, "x", n - 1) ELSE << >>) \o <<Reveal("x"), Exp("x")>>)
ASSUME \A n \in 1..4 : \A t \in 1..n : \A kind \in {"any", "zero", "nil", "max"} : PrintT(ToJson(One(n, t, kind)))
ASSUME \A t \in 1..5 : PrintT(ToJson(One(5, t, "any" \o Str(t))))
ASSUME IOEnv.TIER = "thorough" => \A t \in 1..6 : \A kind \in {"any", "zero", "small"} : PrintT(ToJson(One(6, t, kind)))
\* after combining
Comb(n, t) == Scen(n, At("h"), <<Gen("a"), Gen("b"), Reshare("a", "x", t), Reshare("b", "y", t), Lin(At("al"), "x", At("be"), "y", "z")>> \o Silent(n, "z") \o <<Reveal("z"), Lin(M1, "z", "1", "z", "o")>> \o Silent(n, "o"))
ASSUME \A n \in 2..4 : \A t \in 1..n : PrintT(ToJson(Comb(n, t)))
\* much of the randomness is zero: shares that are zero
Zero(n, t) == Scen(n, At("h"), <<Zeros(GenOf(n, "a", Secrets(n, "zero")), 100), Zeros(Reshare("a", "x", t), 100)>> \o Silent(n, "x") \o Both("x", << >>))
ASSUME \A n \in 1..4 : \A t \in 1..n : PrintT(ToJson(Zero(n, t)))
\* polynomials for which shares are zero, or what is added up has equal or opposite summands; party 0 chooses, the others deal straight lines
\* (the draws of a resharing begin with two for a proof)
Poly(n, cs) == Draws(n, LAMBDA q : IF Len(cs) = 1 THEN <<"", "", SSub(IF q = 0 THEN SSub(cs[1], ZInt(n - 1)) ELSE "1", "1")>>
                                   ELSE <<"", "", IF q = 0 THEN cs[1] ELSE "0", SSub(IF q = 0 THEN SSub(cs[2], ZInt(n - 1)) ELSE "1", "1")>>)
Structured(n, cs) == Scen(n, At("h"), <<GenOf(n, "a", [p \in 1..n |-> IF p = 1 THEN At("S") ELSE "0"]), With(Reshare("a", "x", Len(cs) + 1), Poly(n, cs))>> \o Both("x", << >>) \o Silent(n, "x"))
Frac(a, b) == SMul(At("S"), SMul(ZMod(a, Order), SInv(b)))
Minus(a, b) == SNeg(Frac(a, b))
ASSUME \A n \in 2..4 : \A c \in {Minus("3", "4"), Minus("1", "1"), Minus("1", "2"), Minus("1", "3"), Minus("5", "6"), Minus("8", "f"), Minus("2", "3"), Frac("1", "1")} : PrintT(ToJson(Structured(n, <<c>>)))
ASSUME \A n \in 3..4 : \A cs \in {<<Minus("b", "9"), Frac("1", "3")>>, <<Minus("3", "2"), Frac("1", "2")>>, <<Minus("5", "6"), Frac("1", "6")>>, <<"0", Minus("1", "1")>>} : PrintT(ToJson(Structured(n, cs)))
\* many parties
Some(n, t, name) == LET RECURSIVE go(_, _)
                        go(Q, k) == IF Cardinality(Q) = t THEN Q ELSE go(Q \cup {Rand(name \o Str(k), n)}, k + 1)
                    IN go({}, 0)
Big(n, t) == Scen(n, At("h"), <<GenOf(n, "a", Secrets(n, "any" \o Str(t))), Reshare("a", "x", t)>> \o Both("x", << >>)
    \o Flat([k \in 1..3 |-> LET Q == Some(n, IF k = 3 THEN t - 1 ELSE t, "q" \o Str(n) \o Str(t) \o Str(k)) G == SetToSeq(Parties(n) \ Q) IN Both("x", [j \in DOMAIN G |-> Drop(1, G[j], -1)])]))
ASSUME \A c \in {<<9, 4>>, <<12, 11>>, <<17, 16>>, <<20, 2>>} : PrintT(ToJson(Big(c[1], c[2])))
=============================================================================
