------------------------------ MODULE GenCommit ------------------------------
(* Scenarios for the commitment package: random behaviours of Commitments on  *)
(* exponents modulo the real order, under several bases.                      *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Regs == 1..4
Seed == IOEnv.SEED
Depth == atoi(IOEnv.DEPTH)
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")
Half == ZDiv(Order, "2")
R1 == ZAtom(Seed \o "v", Order)
R2 == ZAtom(Seed \o "r", Order)
Vals == {"0", "1", "2", "82", SNeg("1"), Half, R1, Order, ZAdd(Order, "1"), Two256, ZAtom(Seed \o "long", ZMul(Order, Two256))}
Few == {"0", "1", SNeg("1"), R1, R2, Order}
Exps == {"0", "1", "2", SNeg("1"), R2, Order, ZAdd(Order, "1"), Two256}
\* H: random, the generator, minus the generator, the neutral element, a point of unknown logarithm
Bases == {[k |-> ZAtom(Seed \o "h", Order)], [k |-> "1"], [k |-> SNeg("1")], [k |-> "0"],
          [x |-> "1", y |-> "4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee"]}
VARIABLES reg, hist, h
vars == <<reg, hist, h>>
M == INSTANCE Commitments WITH SRed <- LAMBDA a : ZMod(a, Order), SZero <- "0"

\* where the result goes: into the object of the register itself, or into a fresh one
\* (an object made by the factory, or an object that held something else)
Dest == {"self", "neutral", "used"}
Create(d, v, r) == [op |-> "create", d |-> d, v |-> v, r |-> r]
Events ==
    {Create(d, v, r) : d \in {1, 2}, v \in Few, r \in Few}
    \cup [op : {"neutral"}, d : Regs]
    \cup [op : {"compose"}, d : Regs, a : Regs, b : Regs, into : Dest]
    \cup [op : {"exp"}, d : Regs, a : Regs, k : {"0", "2", SNeg("1"), Order, R2}, into : Dest]
    \cup [op : {"inv"}, d : Regs, a : Regs, into : Dest]
    \cup [op : {"trip", "into"}, d : Regs, a : Regs]
Init == h \in Bases /\ M!Init /\ hist = << >>
Do(o) == \E e \in {x \in Events : x.op = o} : M!Step(e) /\ hist' = Append(hist, e) /\ UNCHANGED h
\* one action per operation: the simulator first chooses an action
Next == \/ Do("create") \/ Do("neutral") \/ Do("compose") \/ Do("exp") \/ Do("inv") \/ Do("trip") \/ Do("into")
Spec == Init /\ [][Next]_vars
Emit == Len(hist) # Depth \/ PrintT(ToJson([h |-> h, steps |-> hist, shared |-> FALSE]))
NoStep == Init /\ [][FALSE]_vars

Binary(d) == {[op |-> "compose", d |-> d[1], a |-> d[2], b |-> d[3], into |-> w] : w \in Dest}
\* pairs of commitments: all that can be told about two of them
PairTable == {[h |-> b, shared |-> FALSE,
           steps |-> <<Create(1, v1, r1), Create(2, v2, r2), [op |-> "compose", d |-> 3, a |-> 1, b |-> 2, into |-> "neutral"],
                       [op |-> "inv", d |-> 4, a |-> 3, into |-> "neutral"], [op |-> "compose", d |-> 4, a |-> 4, b |-> 3, into |-> "self"]>>]
          : b \in Bases, v1 \in {"0", "1", R1, Order}, r1 \in {"0", "1", SNeg("1"), R2}, v2 \in {"0", SNeg("1"), R1}, r2 \in {"0", R2}}
OneTable == {[h |-> b, shared |-> FALSE,
           steps |-> <<Create(1, v, r), [op |-> "exp", d |-> 2, a |-> 1, k |-> k, into |-> "used"], [op |-> "exp", d |-> 1, a |-> 1, k |-> k, into |-> "self"],
                       [op |-> "trip", d |-> 3, a |-> 1]>>]
          : b \in {[k |-> ZAtom(Seed \o "h", Order)], [k |-> "0"]}, v \in Vals, r \in {"0", "1", R2, Order, ZAdd(Order, "1"), Two256}, k \in Exps}
Table == PairTable \cup OneTable
\* aliasing, shared objects, several goroutines
Ops(k, l) ==
    << [op |-> "compose", d |-> 3, a |-> 1, b |-> 2, into |-> "neutral"], [op |-> "compose", d |-> 3, a |-> 2, b |-> 1, into |-> "used"],
       [op |-> "compose", d |-> 3, a |-> 1, b |-> 1, into |-> "self"], [op |-> "exp", d |-> 4, a |-> 1, k |-> k, into |-> "neutral"],
       [op |-> "exp", d |-> 4, a |-> 1, k |-> l, into |-> "self"], [op |-> "exp", d |-> 4, a |-> 2, k |-> k, into |-> "used"],
       [op |-> "inv", d |-> 3, a |-> 1, into |-> "neutral"], [op |-> "inv", d |-> 4, a |-> 2, into |-> "self"], [op |-> "inv", d |-> 4, a |-> 4, into |-> "self"],
       [op |-> "neutral", d |-> 3], [op |-> "compose", d |-> 3, a |-> 3, b |-> 1, into |-> "self"], [op |-> "compose", d |-> 3, a |-> 1, b |-> 3, into |-> "self"],
       [op |-> "compose", d |-> 3, a |-> 3, b |-> 3, into |-> "self"], [op |-> "exp", d |-> 3, a |-> 3, k |-> k, into |-> "self"],
       [op |-> "trip", d |-> 4, a |-> 1], [op |-> "into", d |-> 4, a |-> 2], Create(4, k, l), Create(3, l, k), [op |-> "neutral", d |-> 4], [op |-> "into", d |-> 4, a |-> 1],
       [op |-> "neutral", d |-> 3], [op |-> "exp", d |-> 3, a |-> 1, k |-> l, into |-> "neutral"], [op |-> "compose", d |-> 4, a |-> 1, b |-> 2, into |-> "neutral"] >>
\* threads that begin at different places
Turn(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
SharedTable ==
    \* what the threads do was never done before
    {[h |-> b, shared |-> TRUE, steps |-> <<Create(1, v, "1"), Create(2, w, R2)>>, threads |-> [t \in 1..4 |-> Turn(Ops(ks[1], ks[2]), IF w = "0" THEN 0 ELSE 5 * (t - 1))]] :
       b \in Bases, v \in {"0", R1}, w \in {"0", SNeg("1")}, ks \in {<<"6", "b">>, <<ZAtom(Seed \o "t", Order), ZAtom(Seed \o "s", "ffffffff")>>}}
    \cup {[h |-> b, shared |-> TRUE, steps |-> <<Create(1, v, "1"), Create(2, w, R2)>> \o Ops(ks[1], ks[2]), threads |-> [t \in 1..4 |-> Ops(ks[1], ks[2])]] :
       b \in Bases, v \in {"0", R1, Order}, w \in {"0", SNeg("1")}, ks \in {<<"0", Order>>, <<R2, ZAdd(Order, "1")>>, <<SNeg("1"), Two256>>}}
=============================================================================
