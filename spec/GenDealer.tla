------------------------------- MODULE GenDealer -------------------------------
(* Resharings with a cheating dealer: all splices of two executions on the     *)
(* same secret, splices with an execution on another secret, messages that are *)
(* changed, cut off, dropped or taken from elsewhere, evaluations and          *)
(* randomizers that do not match; towards one party or all.                    *)
EXTENDS ArithBase
S(n, d, t, twin, rules) == Shadowed(Scen(n, At("h"), <<Gen("a"), IF twin THEN Twin(Net(Reshare("a", "x", t), rules)) ELSE Net(Reshare("a", "x", t), rules)>>), <<d>>)
Spl(d, to, R) == LET q == SetToSeq(R) IN [k \in DOMAIN q |-> Rule(q[k], d, to, "shadow", 0)]
\* committee, dealer, receiver, threshold
Cases == {<<2, 0, 1, 2>>, <<3, 1, -1, 2>>, <<3, 2, 0, 3>>, <<2, 1, -1, 1>>, <<4, 0, -1, 3>>, <<3, 0, -1, 1>>}
\* all subsets of the rounds from a twin
ASSUME \A c \in {<<2, 0, 1, 2>>, <<3, 1, -1, 2>>, <<3, 2, 0, 1>>} : \A R \in SUBSET (1..6) : R # {} => PrintT(ToJson(S(c[1], c[2], c[4], TRUE, Spl(c[2], c[3], R))))
ASSUME \A c \in {<<2, 1, -1, 2>>, <<3, 0, 1, 2>>, <<3, 1, -1, 1>>, <<3, 2, -1, 3>>} : \A R \in SUBSET (1..6) : R # {} => PrintT(ToJson(S(c[1], c[2], c[4], FALSE, Spl(c[2], c[3], R))))
\* one message changed
Mangle(d, to, r) == {<<Rule(r, d, to, "scale", k)>> : k \in {0, 3, 11, 50, 120, 200, 333, 450, 500, 620, 740, 810, 900, 955, 990, 1000}}
    \cup {<<Rule(r, d, to, "flip", k)>> : k \in {0, 9, 24, 31, 32, 40, 64, -1, -8}}
    \cup {<<Rule(r, d, to, "cut", k)>> : k \in {0, 1, 3, 4, 5, 8, 36, -1, -2, -32, -33} \cup (IF r = 5 THEN {} ELSE {-70})} \cup {<<Rule(r, d, to, "empty", 0)>>, <<Drop(r, d, to)>>}
Foreign(n, d, to, r) == {<<Rule(r, d, to, "other", q)>> : q \in (0..(n-1)) \ {d}} \cup (IF r > 1 THEN {<<Rule(r, d, to, "prev", 1)>>} ELSE {})
Commitments(d, to) == {<<Rule(2, d, to, act, k)>> : act \in {"growdata", "growproof"}, k \in {1, 66}} \cup {<<Rule(2, d, to, "border", k)>> : k \in {-1, -66, 2}} \cup {<<Rule(2, d, to, "zeros", 8)>>}
\* the same change of what is committed to and of the opening
Consistent(d, to, t) == {<<Rule(2, d, to, "flip", -k), Rule(3, d, to, "flip", -k)>> : k \in {8 * j * (j + 3) + (j % 8) + 1 : j \in 0..15} \cup {500 * j + 4 : j \in 1..20}}
    \cup UNION {{<<Rule(2, d, to, act, 8 + 72 * j), Rule(3, d, to, act, 72 * j)>> : act \in {"neg", "plus", "neutral"}} : j \in 0..(2 * t - 1)}
\* other points
Moved(n, d, to) == {<<Rule(r, d, to, act, 72 * j)>> : r \in {1, 4}, act \in {"neg", "plus", "neutral"}, j \in 0..(2 * n - 1)} \cup {<<Rule(6, d, to, act, 0)>> : act \in {"neg", "plus", "neutral"}}
Private(d, to) == {<<Rule(5, d, to, act, k)>> : act \in {"share", "rand", "both"}, k \in {1, 2, 1000000}} \cup {<<Rule(5, d, to, "swaptwo", 0)>>}
Some(c) == UNION {Mangle(c[2], c[3], r) \cup Foreign(c[1], c[2], c[3], r) : r \in 1..6} \cup Private(c[2], c[3]) \cup Commitments(c[2], c[3])
\* both the commitment and its opening from another party
Copied(c) == {<<Rule(2, c[2], c[3], "other", q), Rule(3, c[2], c[3], "other", q)>> : q \in (0..(c[1]-1)) \ {c[2]}}
    \cup {[k \in 1..5 |-> Rule(k + 1, c[2], c[3], "other", q)] : q \in (0..(c[1]-1)) \ {c[2]}} \cup {[k \in 1..6 |-> Rule(k, c[2], c[3], "other", q)] : q \in (0..(c[1]-1)) \ {c[2]}}
ASSUME \A c \in {<<3, 1, -1, 2>>, <<3, 2, 0, 3>>} : \A rules \in Some(c) : PrintT(ToJson(S(c[1], c[2], c[4], FALSE, rules)))
ASSUME \A c \in {<<3, 1, -1, 2>>, <<4, 2, 0, 3>>, <<2, 0, -1, 1>>} : \A rules \in Consistent(c[2], c[3], c[4]) \cup Moved(c[1], c[2], c[3]) : PrintT(ToJson(S(c[1], c[2], c[4], FALSE, rules)))
ASSUME \A c \in Cases : \A rules \in Copied(c) \cup Private(c[2], c[3]) \cup UNION {Foreign(c[1], c[2], c[3], r) : r \in 1..6} : PrintT(ToJson(S(c[1], c[2], c[4], FALSE, rules)))
ASSUME IOEnv.TIER = "thorough" => \A c \in Cases : \A rules \in Some(c) : PrintT(ToJson(S(c[1], c[2], c[4], FALSE, rules)))
\* the messages of two dealers
ASSUME \A r \in 1..6 : \A act \in {"scale", "cut", "drop"} : PrintT(ToJson([S(4, 0, 2, FALSE, <<Rule(r, 0, -1, act, 5), Rule(r, 3, -1, act, 5)>>) EXCEPT !.shadows = << >>]))
\* honest secrets of special kinds, cheated on
ASSUME \A kind \in {"zero", "same"} : \A R \in {{5}, {2}, {3}, {2, 3}, {4}, {4, 5, 6}, {6}} : PrintT(ToJson(Shadowed(Scen(3, At("h"), <<GenOf(3, "a", Secrets(3, kind)), Twin(Net(Reshare("a", "x", 2), Spl(1, -1, R)))>>), <<1>>)))
\* a secret that was reshared already, a product
ASSUME \A R \in {{1}, {2}, {3}, {4}, {5}, {6}, {2, 3}, {4, 5}} : PrintT(ToJson(Shadowed(Scen(3, At("h"), <<Gen("a"), Reshare("a", "x", 2), Twin(Net(Reshare("x", "y", 3), Spl(2, -1, R)))>>), <<2>>)))
=============================================================================
