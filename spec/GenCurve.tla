------------------------------ MODULE GenCurve ------------------------------
(* Scenarios for the curve package: behaviours of Curve on exponents modulo   *)
(* the real order. Operands and scalars come from small sets so that special  *)
(* relations (neutral, equal, inverse, same x, same y) arise all the time.    *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Regs == 1..4
Seed == IOEnv.SEED
Depth == atoi(IOEnv.DEPTH)

\* lambda * (x, y) = (beta * x, y): points with a common y coordinate
Lambda == "5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"
Half == ZDiv(Order, "2")
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")
\* scalars whose multiple of the generator has short coordinates (31, 30 bytes)
ShortCoord == {"7a", "82", "99", "a0e8", "ae55", "da97"}
Units == {"0", "1", "2", "3", ZSub(Order, "1"), ZSub(Order, "2"), Half, ZAdd(Half, "1"), Lambda, SMul(Lambda, Lambda), SNeg(Lambda)}
Beyond == {Order, ZAdd(Order, "1"), ZSub(ZAdd(Order, Order), "1"), ZAdd(Order, Order), ZAdd(Order, Half),
           ZSub(Two256, "1"), Two256, ZAdd(Two256, "1"), ZMul(Two256, Two256), ZMul(Order, Two256),
           ZAdd(ZMul(Order, Two256), "1"), ZMul(Order, "100000000000001")}
Random == {ZAtom(Seed \o x, Order) : x \in {"r1", "r2"}}
      \cup {ZAtom(Seed \o "short", "ffffffffffffffffffffffffffff"), ZAtom(Seed \o "byte", "100"),
            ZAtom(Seed \o "long", ZMul(Order, Two256))}
\* around the borders of bytes, words and halves, and with long runs of zeros or ones
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN "1" ELSE ZMul("2", Pow2(n - 1))
Borders == {"4", "5", "7", "8", "9", "f", "10", "11", "1f", "20", "21", "ff", "100", "101"} \cup UNION {{Pow2(n), ZSub(Pow2(n), "1"), ZAdd(Pow2(n), "1")} : n \in {31, 32, 63, 64, 127, 128, 129, 192, 247, 248, 255}}
           \cup {ZAdd(Pow2(255), Pow2(7)), ZSub(Pow2(256), Pow2(64)), ZSub(Order, Pow2(128)), ZAdd(Order, Pow2(128)), ZSub(Order, Pow2(64))}
Scalars == Borders \cup Units \cup Beyond \cup ShortCoord \cup Random
FewScalars == Units \cup {Order, ZAdd(Order, "1"), Two256} \cup {ZAtom(Seed \o "r1", Order), "82", "99"}

VARIABLES reg, hist
M == INSTANCE Curve WITH GAdd <- SAdd, GNeg <- SNeg, GScale <- SMul, GId <- "0", GGen <- "1",
        Loaded <- LAMBDA e : ZAtom(e.name, Order)

\* a point whose logarithm nobody knows, with the shortest x coordinate there is
SmallX == [op |-> "load", name |-> "x1", x |-> "1", y |-> "4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee"]
Load(d) == [op |-> "load", d |-> d, name |-> SmallX.name, x |-> SmallX.x, y |-> SmallX.y]

WalkEvents ==
    [op : {"neutral", "gen"}, d : Regs] \cup {Load(d) : d \in Regs}
    \cup [op : {"trip", "neg"}, d : Regs, a : Regs]
    \cup [op : {"add"}, d : Regs, a : Regs, b : Regs]
    \cup [op : {"scale"}, d : {1, 3}, a : Regs, k : FewScalars]
    \cup [op : {"base"}, d : {2, 4}, k : FewScalars]

Init == M!Init /\ hist = << >>
Do(o) == \E e \in {x \in WalkEvents : x.op = o} : M!Step(e) /\ hist' = Append(hist, e)
\* one action per operation: the simulator first chooses an action
Next == \/ Do("neutral") \/ Do("gen") \/ Do("load") \/ Do("trip") \/ Do("neg") \/ Do("add") \/ Do("scale") \/ Do("base")
Spec == Init /\ [][Next]_<<reg, hist>>
Emit == Len(hist) # Depth \/ PrintT(ToJson([steps |-> hist, shared |-> FALSE]))

(* Every step from every kind of operand: the table.                          *)
Operands == Units \cup ShortCoord \cup Random
Put(d, k) == IF k = "x1" THEN Load(d) ELSE IF k = "-x1" THEN Load(d) ELSE [op |-> "base", d |-> d, k |-> k]
Neg1(d, k) == IF k = "-x1" THEN << [op |-> "neg", d |-> d, a |-> d] >> ELSE << >>
Prep(d, k) == << Put(d, k) >> \o Neg1(d, k)
Table ==
    {Prep(1, a) \o Prep(2, b) \o << [op |-> "add", d |-> 3, a |-> 1, b |-> 2] >> : a \in Operands \cup {"x1", "-x1"}, b \in Operands \cup {"x1", "-x1"}}
    \cup {Prep(1, a) \o << [op |-> "add", d |-> 1, a |-> 1, b |-> 1], [op |-> "add", d |-> 2, a |-> 1, b |-> 1] >> : a \in Operands \cup {"x1"}}
    \cup {Prep(1, a) \o << [op |-> "neg", d |-> 2, a |-> 1], [op |-> "add", d |-> 3, a |-> 1, b |-> 2],
                           [op |-> "add", d |-> 4, a |-> 3, b |-> 1], [op |-> "trip", d |-> 3, a |-> 4] >> : a \in Operands \cup {"x1"}}
    \cup {Prep(1, a) \o << [op |-> "scale", d |-> 2, a |-> 1, k |-> k] >> : a \in Units \cup {"x1", "-x1", "82", "99"}, k \in Scalars}
    \cup {<< [op |-> "base", d |-> 1, k |-> k] >> : k \in Scalars}
    \* one history with all scalars, of points that have coordinates in common
    \cup {LET q == SetToSeq(Scalars) IN [i \in DOMAIN q |-> [op |-> "base", d |-> 1 + (i % 4), k |-> q[i]]]}
    \cup {Prep(1, a) \o << [op |-> "neg", d |-> 2, a |-> 1], [op |-> "scale", d |-> 3, a |-> 1, k |-> Lambda] >>
           \o LET q == SetToSeq(FewScalars \cup {"6", "e", ZAdd(Pow2(64), "6"), ZAdd(Pow2(128), "e"), ZAdd(Pow2(32), "6")}) IN [i \in 1..(3 * Len(q)) |-> [op |-> "scale", d |-> 4, a |-> 1 + (i % 3), k |-> q[((i - 1) \div 3) + 1]]]
           : a \in {"1", "82", "x1", ZAtom(Seed \o "r1", Order)}}

(* The same objects over and over, with every aliasing, in one goroutine and  *)
(* then in several at the same time.                                          *)
SharedOps(k, l) ==
    << [op |-> "add", d |-> 3, a |-> 1, b |-> 2], [op |-> "add", d |-> 3, a |-> 2, b |-> 1], [op |-> "add", d |-> 3, a |-> 1, b |-> 1],
       [op |-> "neg", d |-> 3, a |-> 1], [op |-> "neg", d |-> 4, a |-> 2], [op |-> "neg", d |-> 4, a |-> 4], [op |-> "add", d |-> 4, a |-> 4, b |-> 2],
       [op |-> "scale", d |-> 3, a |-> 1, k |-> k], [op |-> "scale", d |-> 3, a |-> 2, k |-> k], [op |-> "scale", d |-> 3, a |-> 1, k |-> l],
       [op |-> "base", d |-> 4, k |-> k], [op |-> "base", d |-> 4, k |-> l], [op |-> "gen", d |-> 4],
       [op |-> "add", d |-> 4, a |-> 4, b |-> 1], [op |-> "add", d |-> 4, a |-> 1, b |-> 4], [op |-> "scale", d |-> 4, a |-> 4, k |-> k],
       [op |-> "trip", d |-> 3, a |-> 1], [op |-> "neutral", d |-> 4], [op |-> "add", d |-> 3, a |-> 1, b |-> 4], [op |-> "neg", d |-> 3, a |-> 3],
       [op |-> "scale", d |-> 3, a |-> 1, k |-> k], [op |-> "base", d |-> 4, k |-> k] >>
SomeOperands == {"0", "1", "2", SNeg("1"), Half, Lambda, "82", ZAtom(Seed \o "r1", Order)}
SomeScalars == {<<"0", Order>>, <<Order, ZAdd(Order, "1")>>, <<SNeg("1"), Two256>>, <<ZAtom(Seed \o "r2", Order), ZAdd(ZMul(Order, Two256), "1")>>}
\* threads that begin at different places
Turn(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
SharedTable ==
    \* what the threads do was never done before
    {[shared |-> TRUE, steps |-> Prep(1, a) \o Prep(2, b),
      threads |-> [t \in 1..4 |-> Turn(SharedOps(ks[1], ks[2]), IF b = "0" THEN 0 ELSE 5 * (t - 1))]] : a \in SomeOperands, b \in {"0", "3", "x1"}, ks \in {<<"6", "b">>, <<ZAtom(Seed \o "t", Order), ZAtom(Seed \o "s", "ffffffff")>>}}
    \cup {[shared |-> TRUE, steps |-> Prep(1, a) \o Prep(2, b) \o SharedOps(ks[1], ks[2]),
      threads |-> [t \in 1..4 |-> SharedOps(ks[1], ks[2])]] : a \in SomeOperands, b \in {"0", "1", Half, "x1"}, ks \in SomeScalars}
\* for tables alone
NoStep == Init /\ [][FALSE]_<<reg, hist>>
=============================================================================
