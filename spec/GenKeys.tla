-------------------------------- MODULE GenKeys --------------------------------
(* Committees of all sizes, with keys of the usual size and of others, with    *)
(* and without a list of addresses.                                            *)
EXTENDS KeyBase
Upto(n) == [k \in 1..n |-> k - 1]
Some(n) == IF n <= 5 THEN Upto(n) ELSE <<0, 1, n \div 2, n - 2, n - 1>>
Names(n) == [k \in 1..n |-> Local(k)]
Keys(n, f(_)) == [k \in 1..n |-> f(k)]
Usual(k) == Key(Str(k), 33, 33 - (k % 4), 33)
\* lengths whose two digits differ, and lengths that agree in one of them
Long == <<<<256, 256, 256>>, <<512, 511, 512>>, <<255, 256, 257>>, <<300, 44, 556>>, <<2048, 2047, 2048>>, <<1, 1, 1>>, <<127, 128, 129>>, <<33, 1, 33>>, <<1, 33, 256>>, <<384, 128, 640>>>>
ASSUME \A n \in (2..13) \cup {16, 17, 101} \cup (IF Tier = "thorough" THEN {64, 127, 128, 255, 256, 257, 300} ELSE {257}) :
    /\ PrintT(ToJson(Gen(Str(n), n, Keys(n, Usual), Some(n))))
    /\ PrintT(ToJson(From(Gen(Str(n), n, Keys(n, Usual), Some(n)), Names(n), "\n")))
ASSUME \A n \in {2, 3, 5} : /\ PrintT(ToJson(Gen(Str(n), n, << >>, Upto(n))))
                            /\ PrintT(ToJson(From(Gen(Str(n), n, << >>, Upto(n)), Names(n), "")))
                            \* more addresses than members
                            /\ PrintT(ToJson(From(Gen(Str(n), n, Keys(n, Usual), Upto(n)), Names(n + 3), "\n")))
ASSUME \A j \in DOMAIN Long : \A n \in {2, 3} :
    PrintT(ToJson(Gen(Str(n), n, Keys(n, LAMBDA k : LET l == Long[(((j + k) - 2) % Len(Long)) + 1] IN Key(Str(k), l[1], l[2], l[3])), Upto(n))))
ASSUME \A l \in {<<"localhost:1", "example.org:65535", "[::1]:8080">>, <<"[fe80::1]:1", "a-b.c:2", "[2001:db8::7]:443">>, <<"c:3", "b:2", "a:1">>, <<"127.0.0.1:10002", "127.0.0.1:10001", "127.0.0.1:10000">>, <<"z:1", "zz:11", "z:111">>} :
    PrintT(ToJson(From(Gen("3", 3, Keys(3, Usual), Upto(3)), l, "\n")))
\* too few addresses, or no committee at all
ASSUME \A n \in 2..5 : \A m \in 0..(n - 1) : PrintT(ToJson(From(Gen(Str(n), n, Keys(n, Usual), << >>), Names(m), IF m = 0 THEN "" ELSE "\n")))
ASSUME \A a \in {"1", "0", "-1", "-3", "x", "", "2.5", "99999999999999999999", "3x"} : PrintT(ToJson(Gen(a, 0, << >>, << >>)))
=============================================================================
