------------------------------ MODULE WireBase --------------------------------
(* Values for the codec scenarios (see harness/hcrypto/wire.go) and the bytes *)
(* of crafted encodings.                                                      *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")
At(x) == ZAtom(Seed \o x, Order)
Times(k) == Scale(k, Generator)
Sqrt(a) == ZPowM(a, ZDiv(ZAdd(FieldP, "1"), "4"), FieldP)
\* the point with a given abscissa, if there is one
WithX(x) == LET c == ZMod(ZAdd(ZPowM(x, "3", FieldP), "7"), FieldP) y == Sqrt(c)
            IN IF ZMod(ZMul(y, y), FieldP) = c THEN {<<x, y>>} ELSE {}
\* and with a given ordinate: the characteristic is 7 modulo 9, so that (p + 2) / 9 is the exponent of a cube root
WithY(y) == LET c == ZMod(ZSub(ZAdd(ZPowM(y, "2", FieldP), FieldP), "7"), FieldP) x == ZPowM(c, ZDiv(ZAdd(FieldP, "2"), "9"), FieldP)
            IN IF ZPowM(x, "3", FieldP) = c THEN {<<x, y>>} ELSE {}
UpTo(n) == {ZInt(k) : k \in 1..n}
Short == UNION {WithX(x) : x \in UpTo(6) \cup {"ff", "100", "ffff", "10000"}} \cup UNION {WithY(y) : y \in UpTo(9) \cup {"100", "10000"}}
         \cup UNION {WithX(ZAtom(Seed \o s, ZPowM("100", ZInt(k), ZMul(FieldP, FieldP)))) : s \in {"a", "b"}, k \in {2, 15, 29, 30, 31}}
         \cup UNION {WithX(ZMul(ZAtom(Seed \o s, ZPowM("100", ZInt(30), ZMul(FieldP, FieldP))), "100")) : s \in {"c", "d"}}
\* multiples of the generator whose coordinates are short, in x, in y
ShortK == {"7a", "82", "99", "a0e8", "ae55", "da97"}
Logs == {"0", "1", SNeg("1"), "2"} \cup ShortK \cup {At("k"), At("l")}
Points == Short \cup {Times(k) : k \in Logs} \cup {PNeg(q) : q \in Short}

Point(q) == [t |-> "point", p |-> q]
CommV(a, b) == [t |-> "comm", a |-> a, b |-> b]
KnowV(h, v, r, ds) == [t |-> "know", h |-> h, v |-> v, r |-> r, draws |-> ds]
RefreshV(h, v, r, ds) == [t |-> "refresh", h |-> h, v |-> v, r |-> r, draws |-> ds]
Noop == [t |-> "noop"]

\* 32 bytes in hexadecimal, a length field, an encoded point; Len31: a number of n bytes
Coord(a, n) == ZHex(a, n)
LenF(n) == ZHex(ZInt(n), 4)
Bytes(a) == (ZBitLen(a) + 7) \div 8
RawPoint(a, b) == LenF(Bytes(a)) \o LenF(Bytes(b)) \o Coord(a, Bytes(a)) \o Coord(b, Bytes(b))
RawPadded(a, m, b, n) == LenF(m) \o LenF(n) \o Coord(a, m) \o Coord(b, n)
RawNeutral == LenF(0)
RawOf(q) == IF q = Inf THEN RawNeutral ELSE RawPoint(q[1], q[2])
RawKnow(z1, z2, x, y) == LenF(Bytes(z1)) \o LenF(Bytes(z2)) \o Coord(z1, Bytes(z1)) \o Coord(z2, Bytes(z2)) \o x \o y
RawRefresh(z, x, y) == LenF(Bytes(z)) \o Coord(z, Bytes(z)) \o x \o y

Put(v) == [op |-> "put", val |-> v]
Get(t, chunk, into) == [op |-> "get", t |-> t, chunk |-> chunk, into |-> into]
Left == [op |-> "left"]
Chunks == {"all", "1", "2", "3", "7", "zero", "grow", "shrink", "eof"}
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Scen(steps) == [steps |-> steps]
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
