------------------------------ MODULE Secp256k1 ------------------------------
(* The curve secp256k1 on 256-bit numbers.                                    *)
EXTENDS Integers, Sequences, BigZ
FieldP == "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"
Order  == "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"
LOCAL Add(a, b) == ZMod(ZAdd(a, b), FieldP)
LOCAL Sub(a, b) == ZMod(ZSub(ZAdd(a, FieldP), b), FieldP)
LOCAL Mul(a, b) == ZMod(ZMul(a, b), FieldP)
LOCAL Inv(a) == ZInvM(a, FieldP)
LOCAL Small(a) == ZInt(a)
LOCAL Bits(k) == ZBitLen(k)
LOCAL Bit(k, i) == ZBit(k, i)
INSTANCE EC WITH FAdd <- Add, FSub <- Sub, FMul <- Mul, FInv <- Inv, FInt <- Small, FBits <- Bits, FBit <- Bit

Generator == <<"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
               "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8">>

\* a canonical point: coordinates below the characteristic, on the curve
IsPoint(a) == a = Inf \/ (Len(a) = 2 /\ ZLess(a[1], FieldP) /\ ZLess(a[2], FieldP) /\ OnCurve(a))

\* scalar multiplication: ZPointMul is PMul, evaluated faster (compared by MCEC and MCSecp)
Scale(k, a) == ZPointMul(ZMod(k, Order), a, FieldP)

\* arithmetic of scalars
SAdd(a, b) == ZMod(ZAdd(a, b), Order)
SNeg(a) == ZMod(ZSub(Order, ZMod(a, Order)), Order)
SSub(a, b) == SAdd(a, SNeg(b))
SMul(a, b) == ZMod(ZMul(a, b), Order)
SInv(a) == ZInvM(a, Order)
=============================================================================
