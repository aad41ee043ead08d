-------------------------------- MODULE BigZ --------------------------------
(* Natural numbers of any size, as lower-case hexadecimal strings without     *)
(* leading zeros ("0" is zero). TLC evaluates these operators with the Java   *)
(* class java/BigZ.java; the bodies below only fix the names and arities.     *)
EXTENDS Integers, Sequences
LOCAL Undef == CHOOSE x : x \notin STRING
ZInt(a) == Undef            \* an integer (or a number) as a number
ZNat(a) == Undef            \* a small number as an integer
ZAdd(a, b) == Undef
ZSub(a, b) == Undef         \* only for b <= a
ZMul(a, b) == Undef
ZMod(a, m) == Undef
ZDiv(a, m) == Undef
ZLess(a, b) == Undef
ZInvM(a, m) == Undef        \* multiplicative inverse modulo m
ZPowM(a, e, m) == Undef
ZBitLen(a) == Undef         \* an integer
ZBit(a, i) == Undef         \* 0 or 1
ZAtom(name, m) == Undef     \* a number below m determined by the string name
ZHex(a, n) == Undef          \* the n lowest bytes of a number, in hexadecimal with leading zeros
ZHkdf(k, salt, info, n) == Undef \* n bytes of HKDF-SHA256 of the bytes k, as a number
ZVary(s) == Undef            \* the number of bits that differ somewhere in a sequence of numbers
ZPointMul(k, pt, p) == Undef \* k * pt on y^2 = x^3 + 7 over Z_p; << >> is neutral
=============================================================================
