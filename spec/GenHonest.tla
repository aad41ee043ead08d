------------------------------ MODULE GenHonest ------------------------------
(* Honest proofs: values, randomizers and refreshers of every kind, under     *)
(* several bases, with special randomness, for statements obtained in every   *)
(* way.                                                                       *)
EXTENDS ProofBase
Bases == {Hb, "1", SNeg("1"), "0"}
Vals == {"0", "1", SNeg("1"), At("v"), Order, ZAdd(Order, "1"), ZAdd(Two256, At("w")), ZAtom(Seed \o "long", ZMul(Order, Two256))}
Few == {"0", "1", At("v"), Order, ZAdd(Two256, At("w"))}
Randomness == {<<"0", "0">>, <<"0", "1">>, <<"1", "0">>, <<SNeg("1"), SNeg("1")>>, <<"ff", "100">>, <<"82", ZAtom(Seed \o "short", "ffffffffffffffffffffffffffffffffffffffffffffffffffff")>>}
\* the statement, the proof, and all the ways of checking it
CheckK(p, c, other) == <<VerK(p, c), Tripped(VerK(p, c)), VerK(p, other), VerK(p, c)>>
KnowS(b, v, r) == Scen(F12(b, b), <<CommS(1, v, r), Know(1, 1, v, r), Trip(2, 1)>> \o CheckK(1, 1, 2) \o <<CommS(3, v, r), VerK(1, 3), OnF(VerK(1, 1), 2)>>)
DrawsS(b, v, r, ds) == Scen(F1(b), <<CommS(1, v, r), With(Know(1, 1, v, r), ds)>> \o CheckK(1, 1, 1)
    \o <<CommS(2, "0", r), Compose(3, 1, 2), With(Refresh(2, 1, 3, r), <<ds[1]>>), VerR(2, 1, 3), Tripped(VerR(2, 1, 3))>>)
RefreshS(b, v, r, s) == Scen(F12(b, b), <<CommS(1, v, r), CommS(2, "0", s), Compose(3, 1, 2), Refresh(1, 1, 3, s), VerR(1, 1, 3), Tripped(VerR(1, 1, 3)), Trip(4, 1), Trip(5, 3),
     VerR(1, 4, 5), OnF(VerR(1, 1, 3), 2),
     \* and back
     Refresh(2, 3, 1, SNeg(s)), VerR(2, 3, 1), Tripped(VerR(2, 3, 1))>>)
\* statements that are the results of operations
DerivedS(b, v, r, k) == Scen(F1(b), <<CommS(1, v, r), ExpS(2, 1, k), Know(1, 2, ZMul(k, v), ZMul(k, r)), VerK(1, 2), Tripped(VerK(1, 2)),
     CommS(3, k, "1"), Compose(4, 2, 3), Know(2, 4, ZAdd(ZMul(k, v), k), ZAdd(ZMul(k, r), "1")), VerK(2, 4), Tripped(VerK(2, 4)),
     InvS(5, 4), Know(3, 5, SNeg(ZAdd(ZMul(k, v), k)), SNeg(ZAdd(ZMul(k, r), "1"))), VerK(3, 5),
     Compose(6, 4, 5), Know(4, 6, "0", "0"), VerK(4, 6), Know(5, 6, Order, "0"), VerK(5, 6),
     CommS(7, "0", k), Compose(8, 2, 7), Refresh(6, 2, 8, k), VerR(6, 2, 8), Tripped(VerR(6, 2, 8)), Refresh(7, 6, 7, k), VerR(7, 6, 7), Refresh(8, 7, 6, SNeg(k)), VerR(8, 7, 6), VerK(1, 2)>>)
ASSUME \A s \in {KnowS(b, v, r) : b \in Bases, v \in Vals, r \in Vals} : PrintT(ToJson(s))
ASSUME \A s \in {RefreshS(b, v, r, t) : b \in {Hb, "1", "0"}, v \in Few, r \in {"0", At("r"), Order}, t \in Vals} : PrintT(ToJson(s))
ASSUME \A s \in {DrawsS(b, v, r, ds) : b \in {Hb, "0"}, v \in {"0", At("v")}, r \in {"0", At("r")}, ds \in Randomness} : PrintT(ToJson(s))
ASSUME \A s \in {DerivedS(b, v, r, k) : b \in {Hb, "1"}, v \in {"0", At("v"), Order}, r \in {"0", At("r")}, k \in {"0", "1", At("k"), SNeg("1"), ZAdd(Order, At("k"))}} : PrintT(ToJson(s))
=============================================================================
