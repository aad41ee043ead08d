------------------------------- MODULE GenNonces -------------------------------
(* Many proofs in a row, for the same and other statements, for witnesses of   *)
(* all kinds, under several bases.                                             *)
EXTENDS ProofBase
Bases == <<Hb, "1", SNeg("1"), "0", "2">>
Vals == <<"0", "1", SNeg("1"), At("v"), Order, ZAdd(Order, "1"), At("w")>>
Name(b, k) == ToString(<<b, k>>)
K(b, v, r, name) == <<CommS(1, v, r), Blind(Know(1, 1, v, r), name \o "k1"), Blind(Know(1, 1, v, r), name \o "k2")>>
R(b, v, r, s, name) == <<CommS(2, v, r), CommS(3, "0", s), Compose(4, 2, 3), Blind(Refresh(1, 2, 4, s), name \o "r1"), Blind(Refresh(1, 2, 4, s), name \o "r2"), Blind(Refresh(2, 4, 2, SNeg(s)), name \o "r3")>>
At7(j) == Vals[1 + (j % Len(Vals))]
Mixed(b, base) == Flat([j \in 1..14 |-> K(Bases[b], At7(j), At7(j * 3 + b), Name(base, <<b, j>>)) \o (IF j % 2 = 0 THEN R(Bases[b], At7(j), At7(j + b), At7(j * 2 + 1), Name(base, <<b, j>>)) ELSE << >>)])
ASSUME \A b \in DOMAIN Bases : \A j \in 1..3 : PrintT(ToJson(Scen(F1(Bases[b]), Mixed(b, "mixed" \o ToString(j)))))
\* one statement again and again
Same(b, k) == LET name == Name("same", <<b, k>>) IN Scen(F1(Bases[b]), <<CommS(1, Vals[k], At("r")), CommS(2, "0", At("s")), Compose(3, 1, 2)>> \o [j \in 1..20 |-> IF j % 2 = 0 THEN Blind(Know(1, 1, Vals[k], At("r")), name \o ToString(j)) ELSE Blind(Refresh(2, 1, 3, At("s")), name \o ToString(j))])
ASSUME \A b \in DOMAIN Bases : \A k \in {1, 4} : PrintT(ToJson(Same(b, k)))
\* many statements
Many(b, name) == Scen(F1(Bases[b]), Flat([j \in 1..300 |-> LET r == At(name \o ToString(j)) IN <<CommS(1, At7(j), r), Blind(Know(1, 1, At7(j), r), name \o "k" \o ToString(j))>>
    \o (IF j % 3 = 0 THEN <<CommS(2, "0", At(name \o "s" \o ToString(j))), Compose(3, 1, 2), Blind(Refresh(1, 1, 3, At(name \o "s" \o ToString(j))), name \o "r" \o ToString(j))>> ELSE << >>)]))
ASSUME \A k \in 1..4 : PrintT(ToJson(Many(1 + (k % 3), "many" \o ToString(k) \o ".")))
=============================================================================
