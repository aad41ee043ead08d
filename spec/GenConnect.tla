------------------------------ MODULE GenConnect ------------------------------
(* Who connects to a party, in which order, and who else does; how dialling   *)
(* goes. Every party of the committee gets through in the end.                *)
EXTENDS RoundsBase
Hello(q) == <<q % 256, q \div 256>>
Off(greet, end, settle) == [greet |-> greet, end |-> end, settle |-> settle]
True(q) == Off(Hello(q), "", 0)
Chunks == <<"", "1", "zero", "grow", "slow">>
\* whose closing reports an error
Closes == <<"", "", "", "in", "out", "all", "odd">>
\* connections that are no party's, seen by me of n
Stray == [eof0 |-> Off(<< >>, "eof", 0), err0 |-> Off(<< >>, "err", 0), eof1 |-> Off(<<0>>, "eof", 0), err1 |-> Off(<<1>>, "err", 0), eof1n |-> Off(<<255>>, "eof", 0)]
Wrong(n, me) == [self |-> Off(Hello(me), "", 0), n0 |-> Off(Hello(n), "", 0), n1 |-> Off(Hello(n + 1), "", 0), max |-> Off(<<255, 255>>, "", 0), sign |-> Off(<<0, 128>>, "", 0), high |-> Off(<<(me + 1) % n, 1>>, "", 0),
                 swap |-> Off(<<0, 1>>, "", 0)]
NoDials(n) == [q \in 1..n |-> << >>]
Sc(n, me, offers, dials, name) == [kind |-> "connect", n |-> n, me |-> me, chunk |-> Pick(name, Chunks), closes |-> Pick(name \o "e", Closes), turns |-> 3, offers |-> offers, dials |-> dials, dial |-> Rand(name \o "d", 3), listen |-> Rand(name \o "l", 3), lead |-> 15]
Peers(n, me) == SetToSeq((0..(n - 1)) \ {me})
Trues(n, me) == [k \in 1..(n - 1) |-> True(Peers(n, me)[k])]
Perms(s) == {[k \in DOMAIN s |-> s[f[k]]] : f \in {g \in [DOMAIN s -> DOMAIN s] : \A a, b \in DOMAIN s : a # b => g[a] # g[b]}}
\* s with x before the k-th
Insert(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Shuffle(s, name) == LET RECURSIVE go(_, _)
                        go(rest, k) == IF rest = << >> THEN << >> ELSE LET j == Rand(name \o Str(k), Len(rest)) + 1 IN <<rest[j]>> \o go(SubSeq(rest, 1, j - 1) \o SubSeq(rest, j + 1, Len(rest)), k + 1)
                    IN go(s, 0)
\* all orders
ASSUME \A c \in {<<2, 0>>, <<2, 1>>, <<3, 1>>, <<4, 0>>, <<4, 2>>} : \A o \in Perms(Trues(c[1], c[2])) :
    PrintT(ToJson(Sc(c[1], c[2], o, NoDials(c[1]), "all" \o ToString(o))))
\* one stray connection at each place, one that greets wrongly, a second one of the same party
ASSUME \A c \in {<<2, 0>>, <<3, 1>>, <<3, 2>>} :
    /\ \A k \in 1..(c[1] - 1) :
        /\ \A x \in DOMAIN Stray : PrintT(ToJson(Sc(c[1], c[2], Insert(Trues(c[1], c[2]), k, Stray[x]), NoDials(c[1]), "stray" \o x \o Str(k))))
        /\ \A x \in DOMAIN Wrong(c[1], c[2]) : PrintT(ToJson(Sc(c[1], c[2], Insert(Trues(c[1], c[2]), k, Wrong(c[1], c[2])[x]), NoDials(c[1]), "wrong" \o x \o Str(k))))
    /\ \A q \in 1..(c[1] - 1) : \A k \in 1..c[1] : PrintT(ToJson(Sc(c[1], c[2], Insert(Trues(c[1], c[2]), k, True(Peers(c[1], c[2])[q])), NoDials(c[1]), "again" \o Str(q) \o Str(k))))
\* a second one when the first has long been taken: it comes too late
ASSUME \A c \in {<<3, 1, 0>>, <<3, 0, 2>>, <<4, 2, 1>>} : \A more \in 1..2 :
    LET q == c[3]
        first == [True(q) EXCEPT !.settle = 250]
        rest == SelectSeq(Trues(c[1], c[2]), LAMBDA o : o # True(q))
    IN PrintT(ToJson(Sc(c[1], c[2], <<first>> \o [j \in 1..more |-> [True(q) EXCEPT !.settle = IF j = more THEN 30 ELSE 0]] \o rest, NoDials(c[1]), "late" \o ToString(c) \o Str(more))))
\* greetings that cannot be sent
Faults == {[on |-> "write", at |-> 0], [on |-> "write", at |-> 1], [on |-> "flush", at |-> 0]}
ASSUME \A c \in {<<2, 0>>, <<3, 1>>} : \A q \in (0..(c[1] - 1)) \ {c[2]} : \A f \in Faults : \A two \in BOOLEAN :
    PrintT(ToJson(Sc(c[1], c[2], Trues(c[1], c[2]), [NoDials(c[1]) EXCEPT ![q + 1] = IF two THEN <<f, [on |-> "flush", at |-> 1]>> ELSE <<f>>], "dial" \o ToString(f) \o Str(q))))
\* many parties: numbers of two bytes
ASSUME \A c \in {<<258, 256>>, <<300, 1>>, <<257, 255>>} :
    PrintT(ToJson([Sc(c[1], c[2], Shuffle(Trues(c[1], c[2]) \o <<Stray["eof1"], Wrong(c[1], c[2])["max"]>>, "many" \o Str(c[1])), NoDials(c[1]), "many" \o Str(c[1])) EXCEPT !.turns = 2, !.chunk = ""]))
\* stopped at once, while the others are still on their way
ASSUME \A c \in {<<2, 0>>, <<3, 1>>, <<4, 3>>} : \A x \in 1..2 :
    PrintT(ToJson([Sc(c[1], c[2], [k \in 1..c[1] |-> IF k = x THEN [Stray["eof1"] EXCEPT !.settle = 40] ELSE [True(Peers(c[1], c[2])[IF k < x THEN k ELSE k - 1]) EXCEPT !.settle = 20]], NoDials(c[1]), "stop" \o Str(c[1]) \o Str(x)) EXCEPT !.turns = 0]))
\* everything at random
ASSUME \A k \in 1..150 :
    LET name == "w" \o Str(k) \o "."
        n == 2 + Rand(name \o "n", 5)
        me == Rand(name \o "m", n)
        some == [j \in 1..Rand(name \o "s", 6) |-> LET m == name \o "s" \o Str(j) IN
                 CASE Rand(m, 3) = 0 -> Pick(m \o "x", [i \in 1..Cardinality(DOMAIN Stray) |-> Stray[SetToSeq(DOMAIN Stray)[i]]])
                   [] Rand(m, 3) = 1 -> Pick(m \o "x", [i \in 1..Cardinality(DOMAIN Wrong(n, me)) |-> Wrong(n, me)[SetToSeq(DOMAIN Wrong(n, me))[i]]])
                   [] OTHER -> Pick(m \o "x", Trues(n, me))]
        dials == [q \in 1..n |-> IF Rand(name \o "f" \o Str(q), 3) = 0 THEN <<Pick(name \o "g" \o Str(q), SetToSeq(Faults))>> ELSE << >>]
    IN PrintT(ToJson(Sc(n, me, Shuffle(Trues(n, me) \o some, name \o "o"), dials, name \o "c")))
=============================================================================
