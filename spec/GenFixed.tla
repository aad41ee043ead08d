-------------------------------- MODULE GenFixed -------------------------------
(* Where values are published by committing first: a party that does not       *)
(* commit, or opens something else than it committed to, towards one or all.   *)
EXTENDS ArithBase
Xs(n) == Secrets(n, "any")
DKeyS(n, d, rules) == Shadowed(Scen(n, At("h"), <<With(Net(DKey("k"), rules), First(n, Xs(n)))>>), <<d>>)
CheckS(n, d, rules) == Shadowed(Scen(n, At("h"), <<NewKey("k", Xs(n)), Net(CheckDH("k", At("u"), SMul(At("u"), Sum(Xs(n)))), rules)>>), <<d>>)
ReshareS(n, d, t, rules) == Shadowed(Scen(n, At("h"), <<Gen("a"), Twin(Net(Reshare("a", "x", t), rules))>>), <<d>>)
\* committees, deviating party, receiver
Cases == {<<2, 0, 1>>, <<2, 1, -1>>, <<3, 1, -1>>, <<3, 2, 0>>, <<3, 0, 2>>, <<4, 3, -1>>, <<4, 1, 2>>}
At3(r, f) == [k \in DOMAIN f |-> [f[k] EXCEPT !.r = @ + r]]
Mangle(d, to, r) == {<<Rule(r, d, to, "flip", k)>> : k \in {0, 7, 33, 64 + 5, 64 + 64 + 3, 300, -1, -9, -200}}
    \cup {<<Rule(r, d, to, "scale", k)>> : k \in {100, 250, 400, 500, 600, 750, 900, 950}}
    \cup {<<Rule(r, d, to, "cut", k)>> : k \in {0, 1, 4, 7, 8, 20, -1, -30}} \cup {<<Rule(r, d, to, "empty", 0)>>, <<Drop(r, d, to)>>}
Splices(d, to, r) == {<<Rule(r, d, to, "shadow", 0)>>, <<Rule(r + 1, d, to, "shadow", 0)>>}
\* the other point, still well-formed
Points(d, to, r, offs) == {<<Rule(r, d, to, act, off)>> : act \in {"neg", "plus", "double", "neutral"}, off \in offs}
Extended(d, to, r) == {<<[Rule(r, d, to, "add", 0) EXCEPT !.data = x]>> : x \in {"1", "ff00ff", "100000000"}}
\* another party's message, or the one of the commitment
Foreign(n, d, to, r) == {<<Rule(r, d, to, "other", q)>> : q \in (0..(n-1)) \ {d}} \cup {<<Rule(r + 1, d, to, "other", q)>> : q \in (0..(n-1)) \ {d}} \cup {<<Rule(r + 1, d, to, "prev", 1)>>}
\* a commitment to more, to less, to nothing, to the same bytes with another border
Commitments(d, to, r) == {<<Rule(r, d, to, act, k)>> : act \in {"growdata", "growproof"}, k \in {1, 4, 33}}
    \cup {<<Rule(r, d, to, "border", k)>> : k \in {-1, -2, -33, 1, 40}} \cup {<<Rule(r, d, to, "zeros", k)>> : k \in {8, 0, 4}}
All(n, d, to, r) == Commitments(d, to, r) \cup Mangle(d, to, r) \cup Mangle(d, to, r + 1) \cup Splices(d, to, r) \cup Foreign(n, d, to, r)
ASSUME \A c \in Cases : \A rules \in All(c[1], c[2], c[3], 1) \cup Points(c[2], c[3], 2, {0}) \cup Points(c[2], c[3], 1, {8}) \cup Extended(c[2], c[3], 2) : PrintT(ToJson(DKeyS(c[1], c[2], rules)))
ASSUME \A c \in Cases : \A rules \in All(c[1], c[2], c[3], 1) \cup Points(c[2], c[3], 2, {0}) \cup Points(c[2], c[3], 1, {8}) : PrintT(ToJson(CheckS(c[1], c[2], rules)))
ASSUME \A c \in {<<2, 0, 1>>, <<3, 1, -1>>, <<3, 2, 0>>, <<4, 3, -1>>} : \A rules \in Splices(c[2], c[3], 2) \cup Foreign(c[1], c[2], c[3], 2) \cup {<<Drop(2, c[2], c[3])>>} \cup Commitments(c[2], c[3], 2)
        \cup {<<Rule(r, c[2], c[3], "scale", k)>> : r \in {2, 3}, k \in {0, 5, 90, 200, 400, 500, 600, 700, 800, 900, 999}} :
    PrintT(ToJson(ReshareS(c[1], c[2], c[1] - 1, rules)))
\* several at once
ASSUME \A r \in {1, 2} : \A act \in {"shadow", "flip", "drop"} : PrintT(ToJson([Shadowed(DKeyS(4, 0, <<Rule(r, 0, -1, IF act = "shadow" THEN "flip" ELSE act, 70), Rule(r, 2, -1, act, IF act = "shadow" THEN 1 ELSE 70)>>), <<0, 2>>) EXCEPT !.shadows = <<0, 2>>]))
\* a party fails towards one, then everybody ends
ASSUME \A n \in {3, 4} : \A p \in 0..(n-1) : PrintT(ToJson(DKeyS(n, p, [k \in 1..(n-1) |-> Drop(1, p, (p + k) % n)])))
=============================================================================
