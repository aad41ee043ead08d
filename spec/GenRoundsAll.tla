---------------------------- MODULE GenRoundsAll ------------------------------
(* All parties are real: payload matrices, orders of starting and entering,   *)
(* transports of every kind, parties that die.                                *)
EXTENDS RoundsBase
Lens == <<0, 1, 2, 17, 1000, 5000>>
Dead(p, r) == [common |-> FALSE, pay |-> << >>, ms |-> 0, dead |-> TRUE, reject |-> << >>]
\* die: a sequence of <<party, round>>; odds of a rejection by a callback: rej in 100
PartyS(name, n, last, p, die, rej, lens, wait) ==
    LET end == IF \E x \in DOMAIN die : die[x][1] = p THEN (CHOOSE x \in DOMAIN die : die[x][1] = p) ELSE 0
        until == IF end = 0 THEN last ELSE die[end][2]
    IN [r1 \in 1..(until + 1) |->
          LET r == r1 - 1
              nm == name \o Str(p) \o "r" \o Str(r)
              common == Rand(nm \o "c", 2) = 0
          IN IF end # 0 /\ r = until THEN Dead(p, r)
             ELSE [common |-> common,
                   pay |-> IF common THEN <<Pay(p, r, n, Pick(nm \o "l", lens))>> ELSE [q1 \in 1..n |-> Pay(p, r, q1 - 1, Pick(nm \o "l" \o Str(q1), lens))],
                   ms |-> IF wait = 0 THEN 0 ELSE IF Rand(nm \o "w", 3) = 0 THEN Rand(nm \o "m", wait) ELSE 0,
                   dead |-> FALSE,
                   reject |-> SetToSeq({q \in (0..(n - 1)) \ {p} : Rand(nm \o "j" \o Str(q), 100) < rej})]]
ClosedS(name, n, last, die, rej, lens, wait, cap, chunk) ==
    [kind |-> "closed", n |-> n, chunk |-> chunk, cap |-> cap, dial |-> Rand(name \o "dial", 3), listen |-> Rand(name \o "lis", 3), lead |-> 20, dur |-> Pick(name \o "dur", <<1, 5, 300>>),
     start |-> [p \in 1..n |-> Rand(name \o "s" \o Str(p), 8)],
     party |-> [p1 \in 1..n |-> PartyS(name, n, last, p1 - 1, die, rej, lens, wait)]]
Chunks == <<"", "1", "3", "17", "zero", "grow", "slow", "eof">>
Caps == <<-1, 0, 5, 1000>>
Alive(name, n, k) == ClosedS(name, n, 3 + Rand(name \o "n", 4), << >>, 0, IF k % 7 = 0 THEN <<0, 70001, 3>> ELSE Lens, 6 * (k % 3), Pick(name \o "cap", Caps), Pick(name \o "ch", Chunks))
ASSUME \A k \in 1..90 : LET name == "a" \o Str(k) \o "." IN PrintT(ToJson(Alive(name, IF k <= 8 THEN 1 + (k % 2) ELSE 2 + (k % 5), k)))
\* rejections and deaths
Hurt(name, n, k) == ClosedS(name, n, 4, IF (k % 2) = 0 THEN << >> ELSE IF (k % 4) = 1 THEN <<<<Rand(name \o "v", n), Rand(name \o "t", 4)>>>> ELSE <<<<0, Rand(name \o "t", 4)>>, <<n - 1, Rand(name \o "u", 4)>>>>,
    IF (k % 3) = 0 THEN 0 ELSE 15, Lens, 4 * (k % 2), Pick(name \o "cap", <<-1, 1000>>), Pick(name \o "ch", Chunks))
ASSUME \A k \in 1..90 : LET name == "h" \o Str(k) \o "." IN PrintT(ToJson(Hurt(name, 2 + (k % 5), k)))
\* many rounds, many parties, large payloads
ASSUME PrintT(ToJson(ClosedS("long", 3, 40, << >>, 0, Lens, 0, -1, "")))
ASSUME PrintT(ToJson(ClosedS("many", 12, 3, << >>, 0, Lens, 3, 0, "17")))
ASSUME PrintT(ToJson(ClosedS("large", 3, 1, << >>, 0, <<1000000, 300000>>, 0, 1000, "")))
ASSUME \A k \in 1..4 : PrintT(ToJson(ClosedS("larger" \o Str(k), 2 + (k % 2), 2, << >>, 0, <<65535, 65536, 65537, 1048576, 1048577, 3000000>>, 0, -1, "")))
ASSUME PrintT(ToJson(ClosedS("largest", 2, 1, << >>, 0, <<16777217, 20000000>>, 0, -1, "")))
=============================================================================
