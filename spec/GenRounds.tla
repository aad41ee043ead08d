------------------------------ MODULE GenRounds -------------------------------
(* One real party among scripted peers: every deviation of a peer in what it  *)
(* sends, in how sending to it goes, and in what the callback says, alone and *)
(* together with a deviation of another peer.                                 *)
EXTENDS RoundsBase
Ins == SetToSeq(Kinds)
Outs == SetToSeq(DOMAIN OutKinds)
Chunks == <<"", "1", "3", "17", "zero", "grow", "slow", "eof">>
Mode(name) == Pick(name, Chunks)
\* one deviating peer among n - 1, in every round
One(n, me, q, d, dev, name) == OpenS(n, me, d, d + 2, [x \in 1..n |-> IF x - 1 = q THEN dev ELSE Fine], Rand(name \o "c", 2) = 0, Pick(name \o "l", <<1, 5, 40>>), Mode(name))
ASSUME \A k \in DOMAIN Ins : \A c \in {<<3, 1, 0>>, <<3, 0, 2>>, <<2, 1, 0>>, <<4, 2, 3>>} : \A d \in {0, 1} :
    PrintT(ToJson(One(c[1], c[2], c[3], d, <<Ins[k], "ok", FALSE>>, "i" \o Ins[k] \o Str(c[2]) \o Str(d))))
ASSUME \A k \in DOMAIN Outs : \A c \in {<<3, 1, 0>>, <<2, 0, 1>>, <<4, 2, 3>>} : \A d \in {0, 1} : \A rej \in BOOLEAN :
    PrintT(ToJson(One(c[1], c[2], c[3], d, <<"ok", Outs[k], rej>>, "o" \o Outs[k] \o Str(c[2]) \o Str(d))))
\* two deviations: of one peer in both directions, of two peers
FewIn == {"ok", "eof", "cut18", "rid0", "idother", "huge63", "short7", "dup", "early", "slow", "empty"}
FewOut == {"ok", "w0", "f8", "slow", "fslow"}
Devs == {<<i, o, r>> : i \in FewIn, o \in FewOut, r \in BOOLEAN}
ASSUME \A a \in Devs : PrintT(ToJson(One(3, 1, 2, 1, a, "b" \o a[1] \o a[2])))
ASSUME \A a \in {"eof", "cut18", "rid1", "idother", "huge40", "dup", "slow", "ok"} : \A b \in {<<"eof", "ok", FALSE>>, <<"ok", "w8", FALSE>>, <<"ok", "ok", TRUE>>, <<"idme", "fslow", FALSE>>, <<"slow", "slow", FALSE>>, <<"early", "ok", TRUE>>} : \A me \in {0, 2} :
    PrintT(ToJson(OpenS(4, me, 1, 3, [x \in 1..4 |-> IF x - 1 = me THEN Fine ELSE IF x = 2 THEN <<a, "ok", FALSE>> ELSE IF x = 4 THEN b ELSE Fine], me = 0, 9, Mode(a \o b[1]))))
\* random deviations of everybody
Walk(k) == LET n == 3 + Rand("wn" \o Str(k), 4)
               me == Rand("wm" \o Str(k), n)
               name == "w" \o Str(k) \o "."
           IN OpenS(n, me, Rand(name \o "d", 3), 4, [x \in 1..n |-> IF Rand(name \o "f" \o Str(x), 3) = 0 THEN <<Pick(name \o "i" \o Str(x), Ins), Pick(name \o "o" \o Str(x), Outs), Rand(name \o "r" \o Str(x), 4) = 0>> ELSE Fine],
                    Rand(name \o "c", 2) = 0, Pick(name \o "l", <<0, 1, 30>>), Mode(name))
ASSUME \A k \in 1..120 : PrintT(ToJson(Walk(k)))
=============================================================================
