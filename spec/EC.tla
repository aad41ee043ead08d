--------------------------------- MODULE EC ---------------------------------
(* The group of points of y^2 = x^3 + 7 over a prime field, by the affine     *)
(* formulas. << >> is the neutral element (the point at infinity), <<x, y>>   *)
(* any other point.                                                           *)
(* The field is abstract: MCEC instantiates it with Z_43 (a curve of the same *)
(* shape, prime order 31) and checks exhaustively that the formulas are those *)
(* of a cyclic group of prime order; Secp256k1 instantiates it with the real  *)
(* field on 256-bit numbers.                                                  *)
EXTENDS Integers, Sequences
CONSTANTS
    FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_),   \* arithmetic of the field
    FInt(_),                                       \* a small integer as a field element
    FBits(_),                                      \* length of a scalar in bits
    FBit(_, _)                                     \* its i-th bit (0 is the lowest)

Inf == << >>
X(a) == a[1]
Y(a) == a[2]

OnCurve(a) ==
    \/ a = Inf
    \/ /\ Len(a) = 2
       /\ FMul(Y(a), Y(a)) = FAdd(FMul(X(a), FMul(X(a), X(a))), FInt(7))

PNeg(a) == IF a = Inf THEN Inf ELSE <<X(a), FSub(FInt(0), Y(a))>>

LOCAL Through(a, b, slope) ==     \* third intersection, mirrored
    LET x == FSub(FSub(FMul(slope, slope), X(a)), X(b))
    IN  <<x, FSub(FMul(slope, FSub(X(a), x)), Y(a))>>

PAdd(a, b) ==
    IF a = Inf THEN b
    ELSE IF b = Inf THEN a
    ELSE IF X(a) # X(b) THEN Through(a, b, FMul(FSub(Y(b), Y(a)), FInv(FSub(X(b), X(a)))))
    ELSE IF Y(a) = Y(b) /\ Y(a) # FInt(0)
         THEN Through(a, b, FMul(FMul(FInt(3), FMul(X(a), X(a))), FInv(FAdd(Y(a), Y(a)))))
    ELSE Inf

RECURSIVE MulFrom(_, _, _, _)
MulFrom(k, a, i, acc) ==          \* double and add, from the highest bit
    IF i < 0 THEN acc
    ELSE LET d == PAdd(acc, acc) IN MulFrom(k, a, i - 1, IF FBit(k, i) = 1 THEN PAdd(d, a) ELSE d)
PMul(k, a) == MulFrom(k, a, FBits(k) - 1, Inf)
=============================================================================
