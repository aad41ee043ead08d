------------------------------ MODULE GenForge -------------------------------
(* Forgeries, and what makes them impossible: the challenge depends on        *)
(* everything.                                                                *)
EXTENDS ProofBase
(* 1. The winning moves of MCProofs against challenges that forget a field.   *)
Forge(kind, omit, q, w) ==
    [op |-> "forge", kind |-> kind, omit |-> omit, q |-> q, f |-> 1, p |-> 1, c |-> 1, c2 |-> 2, d |-> 5, a |-> w,
     z1 |-> At("sigma"), z2 |-> At("rho"), ka |-> At("X"), kb |-> At("Y")]
Canon == <<"h", "s1", "s2", "t1", "t2", "x1", "x2">>
AskOf(S) == SelectSeq(Canon, LAMBDA x : x \in S)
KnownK(omit) == CASE omit = "x" -> {"s1", "s2"} [] omit = "s" -> {"x1", "x2"} [] OTHER -> {"s1", "s2", "x1", "x2"} \ {omit}
StmtK(omit, w) == CASE omit \in {"x1", "s1"} -> PairS(1, At("A"), w) [] omit \in {"x2", "s2"} -> PairS(1, w, At("B")) [] OTHER -> PairS(1, At("A"), At("B"))
ForgeK(omit, S, w) == Scen(F1(Hb), <<StmtK(omit, w), PairS(2, "0", "0"), Forge("know", omit, AskOf(S), w), VerK(1, 5), Tripped(VerK(1, 5))>>)
KnownR(omit) == {"s1", "s2", "t1", "t2", "x1", "x2"} \ (CASE omit = "x" -> {"x1", "x2"} [] omit = "d" -> {"t1", "t2"} [] omit = "d1" -> {"t1"} [] omit = "d2" -> {"t2"}
                 [] omit = "dl" -> {"s1", "s2"} [] omit = "dl1" -> {"s1"} [] omit = "dl2" -> {"s2"} [] OTHER -> {omit})
DeltaR(omit, w) == CASE omit \in {"x1", "d1", "dl1"} -> PairS(3, At("A"), SMul(Hb, w)) [] omit \in {"x2", "d2", "dl2"} -> PairS(3, w, At("B")) [] OTHER -> PairS(3, At("A"), At("B"))
ForgeR(omit, S, w) == Scen(F1(Hb), <<CommS(1, At("v"), At("r")), DeltaR(omit, w), Compose(2, 1, 3), Forge("refresh", omit, AskOf(S), w),
                          IF omit \in {"dl", "dl1", "dl2"} THEN VerR(1, 5, 2) ELSE VerR(1, 1, 5)>>)
\* what is asked: everything that is known, or all but one or two fields, or next to nothing; with and without the base
Asks(K) == {S \in SUBSET K : Cardinality(S) <= 1 \/ Cardinality(K \ S) <= 2}
Forgeries ==
    {ForgeK(o, S, At("wk")) : o \in {"x", "s", "x1", "x2", "s1", "s2"}, S \in {{}}}
    \cup UNION {{ForgeK(o, S \cup B, At("wk")) : S \in Asks(KnownK(o)), B \in {{}, {"h"}}} : o \in {"x", "s", "x1", "x2", "s1", "s2"}}
    \cup UNION {{ForgeR(o, S \cup B, At("wk")) : S \in Asks(KnownR(o)), B \in {{}, {"h"}}} : o \in {"x", "x1", "x2", "d", "d1", "d2", "dl", "dl1", "dl2"}}

(* 2. Proofs made of special values, for statements that are false or whose   *)
(* witness played no role.                                                    *)
Zs == {Lit("0"), Lit("1"), Lit(SNeg("1"))}
XsOf(n) == {Lit("0"), Lit("1"), Lit(Hb), Cpt(1, n), NegCpt(1, n)}
SpecialK(a, b) == Scen(F1(Hb), <<PairS(1, a, b)>> \o Flat(SetToSeq({<<Splice(1, "know", z1, z2, x1, x2), VerK(1, 1)>> : z1 \in Zs, z2 \in Zs, x1 \in XsOf(1), x2 \in XsOf(2)})))
XsR(n) == {Lit("0"), Lit("1"), Lit(Hb), Cpt(1, n), NegCpt(2, n), Cpt(3, n), NegCpt(3, n)}
SpecialR(a, b) == Scen(F1(Hb), <<CommS(1, At("v"), At("r")), PairS(3, a, b), Compose(2, 1, 3)>>
                    \o Flat(SetToSeq({<<SpliceR(1, z1, x1, x2), VerR(1, 1, 2), VerR(1, 2, 1)>> : z1 \in Zs, x1 \in XsR(1), x2 \in XsR(2)})))
Specials == {SpecialK(a, b) : a \in {"0", "1", At("A")}, b \in {"0", At("B"), Hb}} \cup {SpecialR(a, b) : a \in {"0", "1", At("A")}, b \in {"0", "1", Hb, At("B")}}

(* 3. Combinations of valid proofs.                                           *)
Lin(kind, p, q, j, k) == [op |-> "lin", kind |-> kind, p |-> 9, pa |-> p, pb |-> q, ka |-> j, kb |-> k]
Ks == {"0", "1", "2", SNeg("1")}
Combined == {Scen(F1(Hb), <<CommS(1, At("v"), At("r")), CommS(2, At("v2"), At("r2")), Compose(3, 1, 2), ExpS(4, 1, "2"), InvS(5, 1), InvS(6, 2), Compose(7, 1, 6), CommS(8, "0", "0"),
                Know(1, 1, At("v"), At("r")), Know(2, 2, At("v2"), At("r2")), Know(3, 1, At("v"), At("r")), Lin("know", p[1], p[2], jk[1], jk[2])>>
                \o [c \in 1..8 |-> VerK(9, c)]) : p \in {<<1, 2>>, <<1, 3>>, <<2, 3>>}, jk \in Ks \X Ks}
     \cup {Scen(F1(Hb), <<CommS(1, At("v"), At("r")), CommS(2, "0", At("s")), CommS(3, "0", At("t")), Compose(4, 1, 2), Compose(5, 4, 3), InvS(6, 1), CommS(7, At("v2"), At("s")),
                Refresh(1, 1, 4, At("s")), Refresh(2, 4, 5, At("t")), Lin("refresh", 1, 2, jk[1], jk[2])>>
                \o SetToSeq({VerR(9, c, d) : c \in {1, 4, 5, 7}, d \in {1, 4, 5, 7}})) : jk \in Ks \X Ks}

ASSUME \A s \in Forgeries : PrintT(ToJson(s))
ASSUME \A s \in Specials : PrintT(ToJson(s))
ASSUME \A s \in Combined : PrintT(ToJson(s))

(* 4. The challenge itself: first messages and statements that differ in one  *)
(* component, or in a way that leaves some combination of them unchanged,     *)
(* have different challenges.                                                 *)
ChalK(f, c, draws) == [op |-> "chal", kind |-> "know", f |-> f, c |-> c, draws |-> draws]
ChalR(f, c, c2, draws) == [op |-> "chal", kind |-> "refresh", f |-> f, c |-> c, c2 |-> c2, draws |-> draws]
H2 == At("h2")
A1 == At("A")
B1 == At("B")
S1 == At("sg")
R1 == At("rh")
D1 == At("delta")
X2 == SAdd(R1, SMul(Hb, S1))       \* logarithm of the second component of the first message
\* randomness with which the first message is <<a, b>>
Rand(a, b) == <<a, SSub(b, SMul(Hb, a))>>
FirstMsgs == {<<S1, X2>>, <<SAdd(S1, D1), X2>>, <<S1, SAdd(X2, D1)>>, <<SAdd(S1, D1), SAdd(X2, D1)>>, <<SAdd(S1, D1), SSub(X2, D1)>>, <<X2, S1>>, <<SNeg(S1), X2>>, <<S1, SNeg(X2)>>,
              <<SNeg(S1), SNeg(X2)>>, <<"0", X2>>, <<S1, "0">>, <<"0", "0">>, <<A1, B1>>, <<B1, A1>>, <<"1", "2">>}
Stmts == {<<A1, B1>>, <<SAdd(A1, D1), B1>>, <<A1, SAdd(B1, D1)>>, <<SAdd(A1, D1), SAdd(B1, D1)>>, <<SAdd(A1, D1), SSub(B1, D1)>>, <<B1, A1>>, <<SNeg(A1), B1>>, <<A1, SNeg(B1)>>,
          <<SNeg(A1), SNeg(B1)>>, <<"0", B1>>, <<A1, "0">>, <<"0", "0">>, <<S1, X2>>, <<X2, S1>>, <<SAdd(S1, D1), X2>>, <<"2", "1">>, <<"1", "2">>}
ChalKnow == Scen(F1(Hb), Flat(SetToSeq({<<PairS(1, s[1], s[2])>> \o SetToSeq({ChalK(1, 1, Rand(x[1], x[2])) : x \in FirstMsgs}) : s \in Stmts})))
\* refresh: the first message is <<sigma, h*sigma>>; the base makes its components independent
Bs == {<<Hb, S1>>, <<H2, S1>>, <<H2, SMul(SMul(Hb, S1), SInv(H2))>>, <<Hb, SAdd(S1, D1)>>, <<Hb, "0">>, <<SNeg(Hb), SNeg(S1)>>, <<SNeg(Hb), S1>>}
PairsR == {<<s, t>> : s \in {<<A1, B1>>, <<SAdd(A1, D1), B1>>, <<A1, SAdd(B1, D1)>>, <<"0", "0">>, <<B1, A1>>}, t \in {<<A1, B1>>, <<SAdd(A1, D1), B1>>, <<A1, SAdd(B1, D1)>>, <<SAdd(A1, D1), SAdd(B1, D1)>>, <<"0", "0">>, <<SNeg(A1), SNeg(B1)>>, <<B1, A1>>}}
     \cup {<<<<SAdd(A1, t), B1>>, <<SAdd(R1, t), S1>>>> : t \in {"0", D1, "1"}}
BaseName(h) == CASE h = Hb -> 1 [] h = H2 -> 2 [] OTHER -> 3
ChalRefresh == Scen([x \in {"1", "2", "3"} |-> CASE x = "1" -> Hb [] x = "2" -> H2 [] OTHER -> SNeg(Hb)],
    Flat(SetToSeq({<<PairS(1, s[1][1], s[1][2]), PairS(2, s[2][1], s[2][2])>> \o SetToSeq({ChalR(BaseName(x[1]), 1, 2, <<x[2]>>) : x \in Bs}) : s \in PairsR})))
ASSUME PrintT(ToJson(ChalKnow))
ASSUME PrintT(ToJson(ChalRefresh))

(* 5. The hash behind the challenge tells messages apart wherever they differ.*)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(n) == HexDigit[((n \div 16) % 16) + 1] \o HexDigit[(n % 16) + 1]
RECURSIVE Cat(_)
Cat(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE Cat(SubSeq(s, 1, Len(s) \div 2)) \o Cat(SubSeq(s, Len(s) \div 2 + 1, Len(s)))
Msg(n, at, x) == Cat([i \in 1..n |-> Byte(((i * 37) + (IF i = at THEN x ELSE 0)) % 256)])
Lengths == {1, 2, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 144, 272, 288, 432}
\* all positions of short messages; of long ones the first and last 80 and every seventh of the rest
Positions(n) == {i \in 1..n : n <= 144 \/ i <= 80 \/ n - i <= 80 \/ (i % 7) = 0}
HashFlip(n) == Scen(F1("1"), <<[op |-> "hash", msgs |-> <<Msg(n, 0, 0)>> \o SetToSeq({Msg(n, i, x) : i \in Positions(n), x \in {1}} \cup {Msg(n, i, 128) : i \in {1, n}})]>>)
HashLengths == Scen(F1("1"), <<[op |-> "hash", msgs |-> [i \in 1..150 |-> Msg(i - 1, 0, 0)] \o [i \in 1..70 |-> Cat([j \in 1..i |-> "00"])] \o [i \in 1..40 |-> Cat([j \in 1..(i * 16) |-> "ff"])]]>>)
ASSUME \A n \in Lengths : PrintT(ToJson(HashFlip(n)))
ASSUME PrintT(ToJson(HashLengths))
=============================================================================
