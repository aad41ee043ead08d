------------------------------ MODULE GenStream -------------------------------
(* Values put into a message and got back from it.                            *)
EXTENDS WireBase
Comms == {<<a, b>> : a \in Logs, b \in Logs}
Zs == {"0", "1", "ff", "100", ZAtom(Seed \o "s31", ZPowM("100", "1f", ZMul(Order, Order))), SNeg("1"), At("z")}
Knows == {KnowV(h, "0", "0", <<s, r>>) : h \in {"1", At("h")}, s \in Zs, r \in Zs} \cup {KnowV(h, v, r, << >>) : h \in {"0", At("h")}, v \in {"0", At("v")}, r \in {"0", At("r")}}
         \cup {KnowV("1", At("v"), At("r"), <<s, r>>) : s \in ShortK, r \in ShortK}
Refreshs == {RefreshV(h, "0", "0", <<s>>) : h \in {"0", "1", At("h")}, s \in Zs \cup ShortK} \cup {RefreshV(h, v, r, << >>) : h \in {"0", At("h")}, v \in {"0", At("v")}, r \in {"0", "1", At("r")}}
Alone(v, ch, into) == Scen(<<Put(v), Get(v.t, ch, into), Left>>)
\* every value through every kind of reader
PointSet == {Point(q) : q \in Points}
CommSet == {CommV(c[1], c[2]) : c \in Comms}
Some(S, k) == LET s == SetToSeq(S) IN {s[j] : j \in {x \in DOMAIN s : (x % k) = 1}}
ASSUME \A v \in PointSet \cup Knows \cup Refreshs \cup {Noop} : \A ch \in Chunks : PrintT(ToJson(Alone(v, ch, (ch \in {"all", "3"}))))
ASSUME \A v \in CommSet : \A ch \in {"all", "1", "7"} : PrintT(ToJson(Alone(v, ch, (ch = "7"))))
\* long messages: everything after everything, in both orders, then all of it out again
Run(vs, ch) == Scen([k \in DOMAIN vs |-> Put(vs[k])] \o [k \in DOMAIN vs |-> Get(vs[k].t, ch, ((k % 3) = 1))] \o <<Left>>)
Mixed == SetToSeq(Some(PointSet, 5)) \o SetToSeq(Some(Knows, 9)) \o SetToSeq(Some(CommSet, 12)) \o SetToSeq(Some(Refreshs, 4)) \o <<Noop, Point(Inf), Noop, CommV("0", "0"), Point(Inf), Point(Inf)>>
ASSUME \A ch \in Chunks : PrintT(ToJson(Run(Mixed, ch))) /\ PrintT(ToJson(Run(Reverse(Mixed), ch)))
\* a pair of values of every two kinds
Kinds == <<Point(Inf), Point(Times("82")), Point(Times(At("k"))), CommV("0", "0"), CommV("0", At("k")), CommV(At("k"), "0"), CommV("99", "7a"), KnowV("1", "0", "0", <<"0", "0">>), KnowV(At("h"), At("v"), At("r"), << >>),
           RefreshV("1", "0", "0", <<"0">>), RefreshV(At("h"), At("v"), At("r"), << >>), Noop>>
ASSUME \A a \in DOMAIN Kinds : \A b \in DOMAIN Kinds : \A ch \in {"all", "1"} :
    PrintT(ToJson(Run(<<Kinds[a], Kinds[b], Kinds[a], Kinds[b]>>, ch)))
=============================================================================
