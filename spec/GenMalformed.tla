----------------------------- MODULE GenMalformed -----------------------------
(* Bytes that are not encodings: truncated and altered encodings, impossible  *)
(* lengths, coordinates of no point, and plain garbage.                       *)
EXTENDS WireBase
Samples == <<Point(Inf), Point(Times("82")), Point(Times("99")), Point(Times(At("k"))), CommV("0", "0"), CommV("0", At("k")), CommV(At("k"), "0"), CommV("99", At("l")),
             KnowV("1", "0", "0", <<"0", "0">>), KnowV(At("h"), At("v"), At("r"), << >>), KnowV(At("h"), "0", "0", <<"ff", At("z")>>),
             RefreshV("1", "0", "0", <<"0">>), RefreshV(At("h"), At("v"), At("r"), << >>), RefreshV("1", "0", "0", <<"82">>)>>
\* 1. strict prefixes of everything, through every reader
ASSUME \A k \in DOMAIN Samples : \A ch \in Chunks \cup {"broken"} : PrintT(ToJson(Scen(<<[op |-> "prefixes", val |-> Samples[k], chunk |-> ch, into |-> (ch = "2")]>>)))
\* 2. every byte altered
ASSUME \A k \in DOMAIN Samples : PrintT(ToJson(Scen(<<[op |-> "flips", val |-> Samples[k], chunk |-> "all", masks |-> <<1, 128, 255>>]>>)))
\* 3. pieces removed and inserted
Bad(v, es, ch) == [op |-> "bad", val |-> v, edits |-> es, chunk |-> ch]
BadOf(t, hex, ch) == [op |-> "bad", val |-> [t |-> ""], t |-> t, edits |-> <<[m |-> "raw", hex |-> hex]>>, chunk |-> ch]
Cuts == {<<a, b>> \in {0, 1, 4, 5, 8, 9, 36, 40, 44, 48, 72, 76, 80} \X {1, 4, 5, 8, 9, 12, 40, 48, 72, 76, 80, 88, 500} : a < b}
ASSUME \A k \in DOMAIN Samples : PrintT(ToJson(Scen(SetToSeq({Bad(Samples[k], <<[m |-> "cut", at |-> c[1], to |-> c[2], hex |-> ""]>>, "all") : c \in Cuts}
         \cup {Bad(Samples[k], <<[m |-> "ins", at |-> a, hex |-> x]>>, "all") : a \in {0, 4, 8, 9, 40, 72, 76, 80}, x \in {"00", "00000000", "00000001", "00000020", "0000000000000000", "ff"}}
         \cup {Bad(Samples[k], <<[m |-> "tail", hex |-> x]>>, ch) : x \in {"00", "ff", "0000002000000020"}, ch \in {"all", "1"}}))))
\* 4. length fields of every size, alone and in pairs, before the rest of an encoding
Lens == {"00000000", "00000001", "0000001f", "00000020", "00000021", "00000040", "000000ff", "00000100", "00010000", "01000000", "20000000", "7fffffff", "80000000", "80000020", "fffffff8", "ffffffe0", "ffffffff"}
ASSUME \A k \in DOMAIN Samples : PrintT(ToJson(Scen(SetToSeq({Bad(Samples[k], <<[m |-> "set", at |-> a, hex |-> l]>>, "all") : a \in {0, 4, 8, 12, 72, 76, 40, 44}, l \in Lens}
         \cup {Bad(Samples[k], <<[m |-> "set", at |-> 0, hex |-> l \o l2]>>, "all") : l \in Lens, l2 \in Lens}
         \cup {Bad(Samples[k], <<[m |-> "set", at |-> 72, hex |-> l \o l2]>>, "all") : l \in Lens, l2 \in {"00000000", "00000020", "ffffffff"}}
         \cup {Bad(Samples[k], <<[m |-> "set", at |-> 0, hex |-> l \o l2], [m |-> "tail", hex |-> ZHex(At("t"), 100)]>>, "7") : l \in Lens, l2 \in Lens}))))
\* 5. coordinates that are no point, and points written in unusual ways
K == Times(At("k"))
S82 == Times("82")
NotPoints == {<<a, b>> \in ({"0", "1", "2", ZSub(FieldP, "1"), FieldP, ZAdd(FieldP, "1"), ZSub(Two256, "1"), K[1], K[2], ZSub(FieldP, K[2]), Generator[1], Generator[2], "7", Sqrt("7"), ZAdd(K[1], "1"), ZSub(K[2], "1")}
                              \cup {ZAdd(FieldP, u[1]) : u \in {w \in Short : ZLess(ZAdd(FieldP, w[1]), Two256)}}
                              \cup {u[1] : u \in {w \in Short : ZLess(ZAdd(FieldP, w[1]), Two256)}} \cup {u[2] : u \in {w \in Short : ZLess(ZAdd(FieldP, w[2]), Two256)}}
                              \cup {ZAdd(FieldP, u[2]) : u \in {w \in Short : ZLess(ZAdd(FieldP, w[2]), Two256)}})
                    \X ({"0", "1", ZSub(FieldP, "1"), FieldP, ZSub(Two256, "1"), K[2], ZSub(FieldP, K[2]), K[1], Generator[2], ZAdd(K[2], "1"), Sqrt("7")}
                              \cup {u[2] : u \in {w \in Short : ZLess(ZAdd(FieldP, w[1]), Two256)}} \cup {ZAdd(FieldP, u[2]) : u \in {w \in Short : ZLess(ZAdd(FieldP, w[2]), Two256)}}) : ~IsPoint(<<a, b>>)}
Raws == {RawPoint(q[1], q[2]) : q \in NotPoints}
        \* a longer x or y that is congruent to a coordinate
        \cup {RawPadded(ZAdd(Two256, K[1]), 33, K[2], 32), RawPadded(K[1], 32, ZAdd(Two256, K[2]), 33), RawPadded(ZAdd(ZMul(FieldP, "100"), K[1]), 33, K[2], 32), RawPadded(K[1], 32, ZAdd(ZMul(FieldP, "3"), K[2]), 33)}
        \* leading zeros
        \cup {RawPadded(S82[1], 32, S82[2], 32), RawPadded(K[1], 33, K[2], 33), RawPadded(K[1], 40, K[2], 40), RawPadded(K[1], 64, K[2], 64)}
        \* x given, y missing, and the reverse
        \cup {LenF(32) \o LenF(0) \o Coord(K[1], 32), LenF(0) \o LenF(32) \o Coord(K[2], 32), LenF(1) \o LenF(0) \o "00", LenF(1) \o LenF(1) \o "0000", LenF(1) \o LenF(0) \o "01",
              \* the square root of 7 as y of x = 0
              LenF(1) \o LenF(32) \o "00" \o Coord(Sqrt("7"), 32)}
GoodRaws == {RawNeutral, RawPoint(K[1], K[2]), RawPoint(S82[1], S82[2])}
Split(S, k) == LET s == SetToSeq(S) IN {SubSeq(s, j, IF j + k - 1 > Len(s) THEN Len(s) ELSE j + k - 1) : j \in {x \in DOMAIN s : (x % k) = 1}}
Emit(S) == \A ss \in Split(S, 40) : PrintT(ToJson(Scen(ss)))
ASSUME Emit({BadOf("point", r, ch) : r \in Raws, ch \in {"all", "1"}})
ASSUME Emit({BadOf("comm", r \o g, "all") : r \in Raws, g \in GoodRaws} \cup {BadOf("comm", g \o r, "3") : r \in Raws, g \in GoodRaws})
Z == At("z")
ASSUME Emit({BadOf("know", RawKnow(Z, "1", r, g), "all") : r \in Raws, g \in {RawNeutral, RawPoint(K[1], K[2])}} \cup {BadOf("know", RawKnow(Z, "1", g, r), "all") : r \in Raws, g \in {RawNeutral, RawPoint(K[1], K[2])}}
      \cup {BadOf("refresh", RawRefresh(Z, r, g), "all") : r \in Raws, g \in {RawNeutral, RawPoint(K[1], K[2])}} \cup {BadOf("refresh", RawRefresh(Z, g, r), "all") : r \in Raws, g \in {RawNeutral, RawPoint(K[1], K[2])}})
\* 6. responses that are too large or too long, before good points
BigZs == {"0", "1", Order, ZAdd(Order, "1"), ZSub(Two256, "1"), Two256, ZMul(Two256, Two256), ZMul(Order, Two256)}
ASSUME Emit({BadOf("know", RawKnow(a, b, g, g2), ch) : a \in BigZs, b \in BigZs, g \in {RawNeutral, RawPoint(K[1], K[2])}, g2 \in {RawNeutral, RawPoint(S82[1], S82[2])}, ch \in {"all"}}
      \cup {BadOf("refresh", RawRefresh(a, g, g2), ch) : a \in BigZs, g \in GoodRaws, g2 \in GoodRaws, ch \in {"all", "1"}})
\* 7. garbage
Garbage == {<<n, s>> : n \in {0, 1, 3, 4, 7, 8, 9, 31, 32, 40, 64, 71, 72, 73, 80, 100, 144, 200}, s \in {"a", "b", "c"}}
RECURSIVE Pow256(_)
Pow256(n) == IF n = 0 THEN "1" ELSE ZMul("100", Pow256(n - 1))
GHex(g) == IF g[1] = 0 THEN "" ELSE IF g[2] = "a" THEN ZHex("0", g[1]) ELSE ZHex(ZAtom(Seed \o "g" \o g[2] \o ToString(g[1]), Pow256(g[1])), g[1])
ASSUME Emit({BadOf(t, GHex(g), "all") : t \in {"point", "comm", "know", "refresh"}, g \in Garbage})
\* 8. values of one type read as another
ASSUME \A k \in DOMAIN Samples : PrintT(ToJson(Scen(SetToSeq({[op |-> "bad", val |-> Samples[k], t |-> t, edits |-> << >>, chunk |-> "all"] : t \in {"point", "comm", "know", "refresh", "noop"} \ {Samples[k].t}}))))
=============================================================================
