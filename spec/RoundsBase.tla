------------------------------ MODULE RoundsBase ------------------------------
(* Vocabulary of the scenarios for the sync package (harness/hsync).          *)
EXTENDS Integers, Sequences, BigZ, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
\* a number below k that depends on the name
Rand(name, k) == ZNat(ZAtom(Seed \o name, ZInt(k)))
Pick(name, s) == s[Rand(name, Len(s)) + 1]
Str(k) == ToString(k)

Tag(p, r, q) == Str(p) \o "." \o Str(r) \o ">" \o Str(q)
Pay(p, r, q, len) == [tag |-> Tag(p, r, q), len |-> len]
FrameOf(id, rid, tag, len) == [id |-> id, rid |-> rid, tag |-> tag, len |-> len, hdr |-> "", cut |-> -1]
Fr(p, r, q, len) == FrameOf(p, ZInt(r), Tag(p, r, q), len)
InOf(frames, end) == [frames |-> frames, end |-> end, ms |-> 0]
OutOk == [on |-> "", at |-> 0, ms |-> 0]
Out(on, at, ms) == [on |-> on, at |-> at, ms |-> ms]
Two(k) == ZPowM("2", ZInt(k), ZMul("ffffffffffffffffffff", "ffffffffffffffffffff"))

(* How a peer q behaves towards me with payloads of a given length: its       *)
(* script in round r, when it deviates in round d.                            *)
Cuts == [cut0 |-> 0, cut1 |-> 1, cut7 |-> 7, cut8 |-> 8, cut9 |-> 9, cut10 |-> 10, cut17 |-> 17, cut18 |-> 18]
Short == [short0 |-> "0", short1 |-> "1", short2 |-> "2", short7 |-> "7", short9 |-> "9"]
Huge == [huge31 |-> Two(31), huge40 |-> Two(40), huge62 |-> Two(62), huge63m |-> ZSub(Two(63), "1"), huge63 |-> Two(63), huge64 |-> ZSub(Two(64), "1"), huge64h |-> ZSub(Two(64), "8"), hugea |-> ZSub(Two(64), "a")]
\* the true length and a high bit
Wraps == [wrap16 |-> 16, wrap31 |-> 31, wrap32 |-> 32, wrap33 |-> 33, wrap48 |-> 48, wrap63 |-> 63]
\* rounds that are not the current one
Rids(r) == [rid0 |-> ZInt(IF r = 0 THEN 1 ELSE r - 1), rid1 |-> ZInt(r + 1), rid256 |-> ZInt(r + 256), rid32 |-> ZAdd(Two(32), ZInt(r)), rid63 |-> ZAdd(Two(63), ZInt(r)), ridm |-> ZSub(Two(64), "1"), ridb |-> ZMul(ZInt(r + 1), Two(56)), rid16 |-> ZAdd(Two(16), ZInt(r))]
Ids(n, me, q) == [idme |-> me, idother |-> CHOOSE x \in 0..n : x \notin {me, q}, idn |-> n, idmax |-> 65535, idswap |-> q * 256 + 1, idhigh |-> q + 256]
Dying == DOMAIN Cuts \cup DOMAIN Short \cup DOMAIN Huge \cup DOMAIN Wraps \cup {"eof", "err", "cutlast", "more", "goodeof", "gooderr"}
Living == {"ok", "empty", "big", "slow", "dup", "early", "twice"} \cup DOMAIN Rids(0) \cup {"idme", "idother", "idn", "idmax", "idswap", "idhigh", "replay"}
Kinds == Dying \cup Living
In(n, me, q, r, d, kind, len) ==
    LET good == Fr(q, r, me, len)
        mangled == CASE kind \in DOMAIN Cuts -> [good EXCEPT !.cut = Cuts[kind]]
                     [] kind = "cutlast" -> [good EXCEPT !.cut = 17 + len]
                     [] kind \in DOMAIN Short -> [good EXCEPT !.hdr = Short[kind]]
                     [] kind \in DOMAIN Huge -> [good EXCEPT !.hdr = Huge[kind]]
                     [] kind \in DOMAIN Wraps -> [good EXCEPT !.hdr = ZAdd(Two(Wraps[kind]), ZInt(10 + len))]
                     [] kind = "more" -> [good EXCEPT !.hdr = ZInt(11 + len)]
                     [] kind \in DOMAIN Rids(0) -> [good EXCEPT !.rid = Rids(r)[kind]]
                     [] kind \in {"idme", "idother", "idn", "idmax", "idswap", "idhigh"} -> [good EXCEPT !.id = Ids(n, me, q)[kind]]
                     [] kind = "replay" -> [Fr(q, IF r = 0 THEN 7 ELSE r - 1, me, len) EXCEPT !.len = len]
                     [] kind = "empty" -> [good EXCEPT !.len = 0]
                     [] kind = "big" -> [good EXCEPT !.len = 70001]
                     [] OTHER -> good
    IN CASE r < d -> InOf(<<good>>, "")
         [] r = d /\ kind \in {"eof", "err"} -> InOf(<< >>, kind)
         [] r = d /\ kind \in {"goodeof", "gooderr"} -> InOf(<<good>>, IF kind = "goodeof" THEN "eof" ELSE "err")
         [] r = d /\ kind = "dup" -> InOf(<<good, good>>, "")
         [] r = d /\ kind = "twice" -> InOf(<<good, [good EXCEPT !.tag = "second" \o Tag(q, r, me)]>>, "")
         [] r = d /\ kind = "early" -> InOf(<<good, Fr(q, r + 1, me, len)>>, "")
         [] r = d /\ kind = "slow" -> [InOf(<<good>>, "") EXCEPT !.ms = 12]
         [] r = d /\ kind \in Dying -> InOf(<<mangled>>, IF kind \in {"cut1", "cut9", "more", "huge31", "short7"} THEN "err" ELSE "eof")
         [] r = d -> InOf(<<mangled>>, "")
         [] r > d /\ kind \in Dying -> InOf(<< >>, "eof")
         [] r = d + 1 /\ kind = "early" -> InOf(<< >>, "")
         [] OTHER -> InOf(<<good>>, "")
\* sending to q fails, or takes long
OutKinds == [ok |-> OutOk, w0 |-> Out("write", 0, 0), w7 |-> Out("write", 7, 0), w8 |-> Out("write", 8, 0), w17 |-> Out("write", 17, 0), f0 |-> Out("flush", 0, 0), f8 |-> Out("flush", 8, 0),
             slow |-> Out("block", 8, 25), slow0 |-> Out("block", 0, 25), wslow |-> Out("write", 8, 30), fslow |-> Out("flush", 8, 30), fslow0 |-> Out("flush", 0, 30)]
OutOf(r, d, kind) == IF r = d THEN OutKinds[kind] ELSE OutOk

Peer(n, me, q, r, d, in, out, rej, len) == [in |-> In(n, me, q, r, d, in, len), out |-> OutOf(r, d, out), reject |-> (rej /\ r = d)]
\* devs: for every peer its deviation <<in, out, reject>> in round d
OpenS(n, me, d, last, devs, common, len, chunk) ==
    [kind |-> "open", n |-> n, me |-> me, chunk |-> chunk, dial |-> 1, listen |-> 1, lead |-> 15, dur |-> IF d = 1 THEN 1 ELSE 200,
     rounds |-> [r1 \in 1..(last + 1) |->
        LET r == r1 - 1 IN
        [common |-> common,
         pay |-> IF common THEN <<Pay(me, r, n, len)>> ELSE [q1 \in 1..n |-> Pay(me, r, q1 - 1, IF q1 - 1 = me THEN 3 ELSE len)],
         peers |-> [q1 \in 1..n |-> IF q1 - 1 = me THEN [in |-> InOf(<< >>, ""), out |-> OutOk, reject |-> FALSE]
                    ELSE Peer(n, me, q1 - 1, r, d, devs[q1][1], devs[q1][2], devs[q1][3], IF q1 = 1 THEN len ELSE len + q1)]]]]
Fine == <<"ok", "ok", FALSE>>
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
