------------------------------ MODULE MCCommit -------------------------------
(* The machine on pairs of exponents against its encoding on the small curve: *)
(* the encoding is a homomorphism and an injection, for every base H.         *)
EXTENDS SmallCurve, FiniteSets, TLC
CONSTANT HLogs            \* the bases that are tried, by their logarithms
Regs == {1, 2}
Vals == {0, 1, 2, 15, N - 1}
Mul == [k \in 0..2*N+3, a \in Points |-> E!PMul(k, a)]
VARIABLES reg, h
M == INSTANCE Commitments WITH SAdd <- LAMBDA a, b : (a + b) % N, SNeg <- LAMBDA a : (N - a) % N,
        SMul <- LAMBDA a, b : (a * b) % N, SRed <- LAMBDA a : a % N, SZero <- 0
Enc(c) == <<Powers[c[2]], Sum[Powers[c[1]], Mul[c[2], Powers[h]]]>>
Pairs == (0..N-1) \X (0..N-1)

\* any state is as good as another: one step from each of many
Init == h \in HLogs /\ reg \in [Regs -> Vals \X Vals]
Events == {[op |-> "create", d |-> d, v |-> v, r |-> r] : d \in {1, 2}, v \in {0, 1, 2, N - 1, N, 2 * N + 3}, r \in {0, 1, 5, N - 1, N + 1}}
     \cup {[op |-> "neutral", d |-> 2]}
     \cup {[op |-> "compose", d |-> d, a |-> a, b |-> b] : d \in Regs, a \in Regs, b \in Regs}
     \cup {[op |-> "exp", d |-> d, a |-> a, k |-> k] : d \in Regs, a \in Regs, k \in {0, 1, 2, N - 1, N, N + 2}}
     \cup {[op |-> o, d |-> d, a |-> a] : o \in {"inv", "trip", "into"}, d \in Regs, a \in Regs}
Fresh == TLCGet("level") = 1
Next == Fresh /\ UNCHANGED h /\ \E e \in Events : M!Step(e)
Spec == Init /\ [][Next]_<<reg, h>>

\* what the outside sees of a step is the same step on points
Dual(e) ==
    LET x == Enc(reg[IF "a" \in DOMAIN e THEN e.a ELSE 1])
        y == Enc(reg[IF "b" \in DOMAIN e THEN e.b ELSE 1])
    IN CASE e.op = "create"  -> <<Mul[e.r, Gen], Sum[Mul[e.r, Powers[h]], Mul[e.v, Gen]]>>
         [] e.op = "neutral" -> <<E!Inf, E!Inf>>
         [] e.op = "compose" -> <<Sum[x[1], y[1]], Sum[x[2], y[2]]>>
         [] e.op = "exp"     -> <<Mul[e.k, x[1]], Mul[e.k, x[2]]>>
         [] e.op = "inv"     -> <<E!PNeg(x[1]), E!PNeg(x[2])>>
         [] OTHER            -> x
Homomorphic == \A e \in Events : Enc(M!Result(reg, e)) = Dual(e)
\* equal for the outside means equal in value and randomizer
ExactFor(k) == \A c \in Pairs : (<<Powers[c[2]], Sum[Powers[c[1]], Mul[c[2], Powers[k]]]>> = <<E!Inf, E!Inf>>) <=> c = <<0, 0>>
Binding == Cardinality({Enc(c) : c \in Pairs}) = N * N
Exact == \A a, b \in Regs : (Enc(reg[a]) = Enc(reg[b])) <=> reg[a] = reg[b]
ASSUME \A k \in 0..N-1 : ExactFor(k)
=============================================================================
