------------------------------- MODULE MCCurve -------------------------------
(* The machine on the curve over Z_43, and its refinement to exponents mod 31.*)
EXTENDS SmallCurve, FiniteSets, TLC
Regs == {1, 2}
VARIABLE reg
M == INSTANCE Curve WITH GAdd <- LAMBDA a, b : Sum[a, b], GNeg <- LAMBDA a : E!PNeg(a),
        GScale <- LAMBDA k, a : E!PMul(k % N, a), GId <- E!Inf, GGen <- Gen, Loaded <- LAMBDA e : e.pt
I == INSTANCE Curve WITH GAdd <- LAMBDA a, b : (a + b) % N, GNeg <- LAMBDA a : (N - a) % N,
        GScale <- LAMBDA k, a : (k * a) % N, GId <- 0, GGen <- 1, Loaded <- LAMBDA e : Log[e.pt],
        reg <- [r \in Regs |-> Log[reg[r]]]

Scalars == {0, 1, 2, 15, N - 1, N, N + 1, 2 * N, 2 * N + 7}
Events ==
    [op : {"load"}, d : Regs, pt : Points] \cup
    [op : {"neutral", "gen"}, d : Regs] \cup [op : {"trip", "neg"}, d : Regs, a : Regs]
    \cup [op : {"add"}, d : Regs, a : Regs, b : Regs]
    \cup [op : {"scale"}, d : Regs, a : Regs, k : Scalars] \cup [op : {"base"}, d : Regs, k : Scalars]

Init == M!Init
Next == \E e \in Events : M!Step(e)
Spec == Init /\ [][Next]_reg

\* every step on points is the same step on exponents
Logs == [r \in Regs |-> Log[reg[r]]]
Homomorphic == \A e \in Events : Log[M!Result(reg, e)] = I!Result(Logs, e)
StepI == \E e \in Events : I!Step(e)
Refines == I!Init /\ [][StepI]_reg
InGroup == \A r \in Regs : reg[r] \in Points /\ E!OnCurve(reg[r])
=============================================================================
