-------------------------------- MODULE SignBase -------------------------------
(* Vocabulary of the scenarios for the signing protocol (harness/htecdsa).     *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
At(x) == ZAtom(Seed \o x, Order)
Str(k) == ToString(k)
M1 == SNeg("1")
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")
Scen(n, ops) == [n |-> n, ops |-> ops]
Init == [op |-> "init"]
Presign(t) == [op |-> "presign", t |-> t]
Sign(m) == [op |-> "sign", msg |-> m]
Net(o, rules) == ("net" :> rules) @@ o
Who(o, w) == ("who" :> w) @@ o
With(o, draws) == ("draws" :> draws) @@ o
Rule(r, from, to, act, arg) == [r |-> r, from |-> from, to |-> to, act |-> act, arg |-> arg, data |-> "0"]
Drop(r, from, to) == Rule(r, from, to, "drop", 0)
Draws(n, f(_)) == [p \in {Str(q) : q \in 0..(n-1)} |-> f(CHOOSE q \in 0..(n-1) : Str(q) = p)]
Messages == <<"0", "1", M1, Order, ZAdd(Order, "5"), ZSub(Two256, "1"), At("m"), ZMul(At("n"), Two256), ZMul(Order, "1000000"), "ff", ZMul(At("l"), At("n"))>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
\* the parties in Q send nothing in exchanges from r on
Silent(r, Q) == Flat([x \in 1..(4 - r) |-> LET q == SetToSeq(Q) IN [k \in DOMAIN q |-> Drop(x + r - 1, q[k], -1)]])
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
