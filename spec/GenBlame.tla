------------------------------- MODULE GenBlame --------------------------------
(* Messages that cannot be used, in every round of every operation, and then   *)
(* the same operation without them.                                            *)
EXTENDS ArithBase
\* acts by what the message consists of
Acts(kind) == CASE kind = "points" -> <<<<"drop", 0>>, <<"empty", 0>>, <<"cut", 1>>, <<"cut", 8>>, <<"cut", -1>>, <<"cut", 40>>, <<"flip", -1>>, <<"flip", 100>>, <<"flip", 300>>>>
                [] kind = "commitment" -> <<<<"drop", 0>>, <<"empty", 0>>, <<"cut", 1>>, <<"cut", 7>>, <<"cut", 8>>, <<"cut", -1>>>>
                [] kind = "question" -> <<<<"drop", 0>>, <<"empty", 0>>, <<"zeros", 3>>, <<"modpow", 1>>, <<"modpow", 2>>, <<"modpow", 3>>, <<"modpow", -2>>>>
                [] kind = "answer" -> <<<<"drop", 0>>, <<"empty", 0>>, <<"zeros", 300>>, <<"modpow", 1>>, <<"modpow", 2>>, <<"modpow", 3>>, <<"modpow", -2>>>>
Kinds2(op) == CASE op = "gen" -> <<"points">>
                [] op = "dkey" -> <<"commitment", "points">>
                [] op = "checkdh" -> <<"commitment", "points", "points">>
                [] op = "privmult" -> <<"question", "answer">>
                [] op = "mult" -> <<"question", "answer", "points", "points">>
                [] op = "exp" -> <<"points">>
Do(op, n) == CASE op = "gen" -> Gen("z")
               [] op = "dkey" -> DKey("z")
               [] op = "checkdh" -> CheckDH("k", At("u"), SMul(At("u"), Sum(Secrets(n, "any"))))
               [] op = "privmult" -> PrivMult(Secrets(n, "any"), Secrets(n, "max"))
               [] op = "mult" -> Mult("a", "b", "z")
               [] op = "exp" -> Exp("x")
Before(op, n) == CASE op = "checkdh" -> <<NewKey("k", Secrets(n, "any"))>>
                   [] op = "mult" -> <<Gen("a"), Gen("b")>>
                   [] op = "exp" -> <<Gen("a"), Reshare("a", "x", (n + 1) \div 2)>>
                   [] OTHER -> << >>
Ops == <<"gen", "dkey", "checkdh", "privmult", "mult", "exp">>
Case(op, n, rules) == Scen(n, At("h"), Before(op, n) \o <<Net(Do(op, n), rules), Do(op, n)>>)
RuleOf(r, from, to, a) == Rule(r, from, to, a[1], a[2])
\* one message, or those of one party to all
ASSUME \A o \in DOMAIN Ops : \A r \in DOMAIN Kinds2(Ops[o]) : \A a \in ToSet(Acts(Kinds2(Ops[o])[r])) : \A n \in 2..4 :
       LET d == Rand(ToString(<<o, r, a, n>>), n) IN
       /\ PrintT(ToJson(Case(Ops[o], n, <<RuleOf(r, d, -1, a)>>)))
       /\ n > 2 => PrintT(ToJson(Case(Ops[o], n, <<RuleOf(r, d, (d + 1 + Rand(ToString(<<o, r, a>>), n - 1)) % n, a)>>)))
\* several, in any rounds
Some(op, n, name, k) == LET r == Rand(name \o "r" \o Str(k), Len(Kinds2(op))) + 1
                            from == Rand(name \o "f" \o Str(k), n)
                            to == (from + 1 + Rand(name \o "t" \o Str(k), n - 1)) % n
                        IN RuleOf(r, from, IF Rand(name \o "w" \o Str(k), 3) = 0 THEN -1 ELSE to, Pick(name \o "a" \o Str(k), Acts(Kinds2(op)[r])))
Merged(rs) == SelectSeq(rs, LAMBDA x : \A y \in ToSet(rs) : x = y \/ x.r # y.r \/ x.from # y.from)
Many(op, n, name) == Case(op, n, LET rs == [k \in 1..(2 + Rand(name, 3)) |-> Some(op, n, name, k)] IN Merged(rs))
ASSUME \A o \in DOMAIN Ops : \A n \in 3..5 : \A j \in 1..(IF Ops[o] \in {"privmult", "mult"} THEN 6 ELSE 15) : PrintT(ToJson(Many(Ops[o], n, Ops[o] \o Str(n) \o "." \o Str(j))))
=============================================================================
