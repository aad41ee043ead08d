------------------------------ MODULE ProofBase ------------------------------
(* Vocabulary of the scenarios for the zkpok package (see harness/hcrypto/    *)
(* proof.go): steps on numbered factories, commitments and proofs.            *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")
At(x) == ZAtom(Seed \o x, Order)
Hb == At("h")
P == INSTANCE Proofs WITH SZero <- "0"

CommS(d, v, r) == [op |-> "comm", f |-> 1, d |-> d, v |-> v, r |-> r]
PairS(d, a, b) == [op |-> "pair", d |-> d, a |-> a, b |-> b]
Compose(d, a, b) == [op |-> "compose", d |-> d, c |-> a, c2 |-> b]
InvS(d, a) == [op |-> "inv", d |-> d, c |-> a]
ExpS(d, a, k) == [op |-> "exp", d |-> d, c |-> a, k |-> k]
Trip(d, a) == [op |-> "tripc", d |-> d, c |-> a]
Know(p, c, v, r) == [op |-> "prove", kind |-> "know", f |-> 1, p |-> p, c |-> c, v |-> v, r |-> r]
Refresh(p, c, c2, s) == [op |-> "prove", kind |-> "refresh", f |-> 1, p |-> p, c |-> c, c2 |-> c2, v |-> "0", r |-> s]
Blind(step, seed) == ("seed" :> seed) @@ [step EXCEPT !.op = "blind"]
With(step, draws) == ("draws" :> draws) @@ step
OnF(step, f) == [step EXCEPT !.f = f]
VerK(p, c) == [op |-> "verify", f |-> 1, p |-> p, c |-> c, trip |-> FALSE]
VerR(p, c, c2) == [op |-> "verify", f |-> 1, p |-> p, c |-> c, c2 |-> c2, trip |-> FALSE]
Tripped(step) == [step EXCEPT !.trip = TRUE]
Splice(p, kind, z1, z2, x1, x2) == [op |-> "splice", p |-> p, kind |-> kind, parts |-> [z1 |-> z1, z2 |-> z2, x1 |-> x1, x2 |-> x2]]
SpliceR(p, z1, x1, x2) == [op |-> "splice", p |-> p, kind |-> "refresh", parts |-> [z1 |-> z1, x1 |-> x1, x2 |-> x2]]
Of(p, part) == [p |-> p, part |-> part]
NegOf(p, part) == [p |-> p, part |-> part, neg |-> TRUE]
Lit(k) == [k |-> k]
Cpt(c, n) == [c |-> c, n |-> n]
NegCpt(c, n) == [c |-> c, n |-> n, neg |-> TRUE]

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Seq0(S) == SetToSeq(S)
Scen(f, steps) == [f |-> f, steps |-> steps]
F1(h) == [x \in {"1"} |-> h]
F12(h, k) == [x \in {"1", "2"} |-> IF x = "1" THEN h ELSE k]
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
