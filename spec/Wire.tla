-------------------------------- MODULE Wire ---------------------------------
(* The encodings, as sequences of digits ("bytes") with length prefixes, and  *)
(* a decoder that reads from a stream which delivers what it has in pieces of *)
(* any size. Points are << >> (neutral) or <<x, y>>; commitments are pairs of *)
(* points; a proof is one or two responses followed by a commitment.          *)
EXTENDS Integers, Sequences
CONSTANTS
    Base,            \* digits are 0..Base-1
    LenDigits,       \* digits of a length field
    MaxLen,          \* no coordinate or response is longer than that
    IsPoint(_)       \* which pairs of coordinates are points of the group

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN << >> ELSE Append(Digits(n \div Base), n % Base)
RECURSIVE Fixed(_, _)
Fixed(n, k) == IF k = 0 THEN << >> ELSE Append(Fixed(n \div Base, k - 1), n % Base)
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0 ELSE Number(SubSeq(s, 1, Len(s) - 1)) * Base + s[Len(s)]

EncPoint(p) == IF p = << >> THEN Fixed(0, LenDigits)
               ELSE Fixed(Len(Digits(p[1])), LenDigits) \o Fixed(Len(Digits(p[2])), LenDigits) \o Digits(p[1]) \o Digits(p[2])
EncComm(c) == EncPoint(c[1]) \o EncPoint(c[2])
RECURSIVE Lens(_)
Lens(zs) == IF zs = << >> THEN << >> ELSE Fixed(Len(Digits(zs[1])), LenDigits) \o Lens(Tail(zs))
RECURSIVE Bodies(_)
Bodies(zs) == IF zs = << >> THEN << >> ELSE Digits(zs[1]) \o Bodies(Tail(zs))
EncProof(zs, c) == Lens(zs) \o Bodies(zs) \o EncComm(c)
Enc(v) == CASE v.t = "point" -> EncPoint(v.p) [] v.t = "comm" -> EncComm(v.c) [] v.t = "proof" -> EncProof(v.z, v.c)

(* Decoding: a result is [ok, v, n] with the number n of digits that were     *)
(* used; n is meaningless when ok is FALSE.                                   *)
Fail == [ok |-> FALSE, v |-> << >>, n |-> 0]
Cut(s, a, b) == SubSeq(s, a + 1, b)          \* digits a+1 .. b
DecPoint(s) ==
    IF Len(s) < LenDigits THEN Fail
    ELSE LET lx == Number(Cut(s, 0, LenDigits))
         IN IF lx = 0 THEN [ok |-> TRUE, v |-> << >>, n |-> LenDigits]
            ELSE IF Len(s) < 2 * LenDigits THEN Fail
            ELSE LET ly == Number(Cut(s, LenDigits, 2 * LenDigits))
                     m == 2 * LenDigits
                 IN IF lx > MaxLen \/ ly > MaxLen \/ Len(s) < m + lx + ly THEN Fail
                    ELSE LET p == <<Number(Cut(s, m, m + lx)), Number(Cut(s, m + lx, m + lx + ly))>>
                         IN IF IsPoint(p) THEN [ok |-> TRUE, v |-> p, n |-> m + lx + ly] ELSE Fail
Rest(s, n) == SubSeq(s, n + 1, Len(s))
DecComm(s) ==
    LET a == DecPoint(s)
    IN IF ~a.ok THEN Fail
       ELSE LET b == DecPoint(Rest(s, a.n))
            IN IF b.ok THEN [ok |-> TRUE, v |-> <<a.v, b.v>>, n |-> a.n + b.n] ELSE Fail
DecProof(s, k) ==
    IF Len(s) < k * LenDigits THEN Fail
    ELSE LET l == [j \in 1..k |-> Number(Cut(s, (j - 1) * LenDigits, j * LenDigits))]
             total == IF k = 1 THEN l[1] ELSE l[1] + l[2]
             m == k * LenDigits
         IN IF (\E j \in 1..k : l[j] > MaxLen) \/ Len(s) < m + total THEN Fail
            ELSE LET z == [j \in 1..k |-> IF j = 1 THEN Number(Cut(s, m, m + l[1])) ELSE Number(Cut(s, m + l[1], m + total))]
                     c == DecComm(Rest(s, m + total))
                 IN IF c.ok THEN [ok |-> TRUE, v |-> <<z, c.v>>, n |-> m + total + c.n] ELSE Fail
=============================================================================
