------------------------------ MODULE GenWrong -------------------------------
(* Proofs that must be rejected: checked against other statements or bases,   *)
(* put together from parts of valid ones, or made with a wrong witness.       *)
EXTENDS ProofBase
Bases == {Hb, "1", SNeg("1")}
Scales == {<<At("v1"), At("r1"), At("v2"), At("r2"), At("s")>>, <<"1", "1", "2", "1", "1">>, <<"0", At("r1"), "1", "0", At("s")>>}
C(h, v, r) == P!Comm(h, ZMod(v, Order), ZMod(r, Order))
\* commitments 1 and 2, 3 = refreshed 1, and what is close to them
Close(h, x) ==
    LET a == C(h, x[1], x[2])
        b == C(h, x[3], x[4])
    IN <<CommS(1, x[1], x[2]), CommS(2, x[3], x[4]), CommS(13, "0", x[5]), Compose(3, 1, 13), Compose(14, 2, 13),
         PairS(4, a[1], b[2]), PairS(5, b[1], a[2]), InvS(6, 1), Compose(7, 1, 2), ExpS(8, 1, "2"), CommS(9, "0", "0"),
         CommS(10, x[1], x[4]), CommS(11, x[3], x[2]), PairS(12, a[2], a[1]), PairS(15, SNeg(a[1]), a[2]), PairS(16, a[1], SNeg(a[2]))>>
Others == 1..16
Proofs1(x) == <<Know(1, 1, x[1], x[2]), Know(2, 2, x[3], x[4]), Know(3, 1, x[1], x[2]),
                Refresh(4, 1, 3, x[5]), Refresh(5, 1, 3, x[5]), Refresh(6, 2, 14, x[5])>>
OtherStatement(h, x) == Scen(F12(h, At("other")), Close(h, x) \o Proofs1(x)
    \o Seq0({VerK(p, c) : p \in {1, 2}, c \in Others}) \o Seq0({OnF(VerK(p, c), 2) : p \in {1, 2}, c \in {1, 2}})
    \o Seq0({VerR(p, c, d) : p \in {4, 6}, c \in Others, d \in {1, 2, 3, 5, 7, 9, 13, 14, 15, 16}}) \o Seq0({OnF(VerR(4, c, d), 2) : c \in {1, 3}, d \in {1, 3}}))
\* splices of proofs 1, 2, 3 (know), resp. 4, 5, 6 (refresh), with swaps, negations and simple values
Zs == {Of(p, z) : p \in {1, 2, 3}, z \in {"z1", "z2"}} \cup {NegOf(1, "z1"), Lit("0"), Lit("1")}
Xs == {Of(p, x) : p \in {1, 2, 3}, x \in {"x1", "x2"}} \cup {NegOf(1, "x1"), NegOf(1, "x2"), Lit("0")}
Pure == <<Of(1, "z1"), Of(1, "z2"), Of(1, "x1"), Of(1, "x2")>>
\* up to two parts are replaced
Replaced == {<<a, b, Pure[3], Pure[4]>> : a \in Zs, b \in Zs} \cup {<<Pure[1], Pure[2], a, b>> : a \in Xs, b \in Xs}
       \cup {<<a, Pure[2], b, Pure[4]>> : a \in Zs, b \in Xs} \cup {<<a, Pure[2], Pure[3], b>> : a \in Zs, b \in Xs}
       \cup {<<Pure[1], a, b, Pure[4]>> : a \in Zs, b \in Xs} \cup {<<Pure[1], a, Pure[3], b>> : a \in Zs, b \in Xs}
       \cup {<<Of(i, "z1"), Of(j, "z2"), Of(k, "x1"), Of(l, "x2")>> : i \in {1, 2, 3}, j \in {1, 2, 3}, k \in {1, 2, 3}, l \in {1, 2, 3}}
SplicesOf(S) == Flat(Seq0({<<Splice(7, "know", s[1], s[2], s[3], s[4]), VerK(7, 1)>> : s \in S}))
Part(i, S) == LET q == Seq0(S) IN {q[j] : j \in {j \in DOMAIN q : j % 4 = i}}
Spliced(h, x, i) == Scen(F1(h), Close(h, x) \o Proofs1(x) \o SplicesOf(Part(i, Replaced)))
SplicedR(h, x) == Scen(F1(h), Close(h, x) \o Proofs1(x)
    \o Flat(Seq0({<<SpliceR(7, z, a, b), VerR(7, 1, 3), VerR(7, 2, 14)>> :
          z \in {Of(4, "z1"), Of(5, "z1"), Of(6, "z1"), Of(1, "z1"), Of(1, "z2"), NegOf(4, "z1"), Lit("0")},
          a \in {Of(4, "x1"), Of(5, "x1"), Of(6, "x1"), Of(1, "x1"), Of(4, "x2"), NegOf(4, "x1")},
          b \in {Of(4, "x2"), Of(5, "x2"), Of(6, "x2"), Of(1, "x2"), Of(4, "x1"), NegOf(4, "x2")}})))
\* wrong witnesses; among them those for which exactly one of the two equations holds:
\* <<v', r>> satisfies the first, and <<v + h*(r - r'), r'>> the second
WrongK(h, v, r) ==
    {<<SAdd(v, "1"), r>>, <<v, SAdd(r, "1")>>, <<r, v>>, <<SNeg(v), r>>, <<v, SNeg(r)>>, <<"0", r>>, <<v, "0">>, <<"0", "0">>, <<At("x"), r>>, <<v, At("x")>>,
     <<ZMod(ZDiv(v, "2"), Order), r>>, <<SMul(v, "2"), SMul(r, "2")>>, <<ZAdd(v, Two256), r>>,
     <<SAdd(v, SMul(h, SSub(r, At("y")))), At("y")>>, <<SAdd(v, SMul(h, r)), "0">>}
WrongWitness(h, v, r) == Scen(F1(h), <<CommS(1, v, r)>>
    \o Flat(Seq0({<<Know(1, 1, w[1], w[2]), VerK(1, 1), Tripped(VerK(1, 1))>> : w \in WrongK(h, v, r)})))
\* refreshments: wrong refresher, another value, or one component only
WrongR(s) == {SAdd(s, "1"), SNeg(s), "0", "1", SMul(s, "2"), At("x"), ZAdd(s, Two256)}
WrongRefresh(h, v, r, s) == Scen(F1(h), <<CommS(1, v, r), CommS(2, "0", s), Compose(3, 1, 2)>>
    \o Flat(Seq0({<<Refresh(1, 1, 3, w), VerR(1, 1, 3), Tripped(VerR(1, 1, 3))>> : w \in WrongR(s)}))
    \* another value, the refresher is right (only the first equation holds)
    \o Flat(Seq0({<<CommS(4, d, s), Compose(5, 1, 4), Refresh(2, 1, 5, s), VerR(2, 1, 5), Refresh(2, 5, 1, SNeg(s)), VerR(2, 5, 1)>> : d \in {"1", SNeg("1"), At("d"), SMul(h, s), SNeg(SMul(h, s))}}))
    \* the second equation holds, the first does not
    \o Flat(Seq0({<<PairS(4, d, SMul(h, s)), Compose(5, 1, 4), Refresh(2, 1, 5, s), VerR(2, 1, 5), Refresh(2, 5, 1, SNeg(s)), VerR(2, 5, 1)>> : d \in {"0", SAdd(s, "1"), SNeg(s), At("d")}}))
    \* the same randomizers in both, different values
    \o <<CommS(6, SAdd(v, "1"), r), Refresh(3, 1, 6, "0"), VerR(3, 1, 6), CommS(7, SNeg(v), r), Refresh(3, 1, 7, "0"), VerR(3, 1, 7)>>)
Vs == {"0", "1", At("v"), SNeg("1")}
ASSUME \A s \in {OtherStatement(h, x) : h \in Bases, x \in Scales} : PrintT(ToJson(s))
ASSUME \A s \in {Spliced(Hb, x, i) : x \in Scales, i \in 0..3} : PrintT(ToJson(s))
ASSUME \A s \in {SplicedR(Hb, x) : x \in Scales} : PrintT(ToJson(s))
ASSUME \A s \in {WrongWitness(h, v, r) : h \in {Hb, "1"}, v \in Vs, r \in Vs} : PrintT(ToJson(s))
ASSUME \A s \in {WrongRefresh(h, v, r, t) : h \in {Hb, "1"}, v \in {"0", At("v")}, r \in {"0", At("r")}, t \in {"0", "1", At("s")}} : PrintT(ToJson(s))
=============================================================================
