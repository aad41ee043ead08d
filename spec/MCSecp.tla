------------------------------- MODULE MCSecp -------------------------------
(* The accelerated scalar multiplication against its definition on the real   *)
(* curve, and the constants of the curve.                                     *)
EXTENDS Secp256k1, TLC
Samples == {"0", "1", "2", "3", ZSub(Order, "1"), ZSub(Order, "2")} \cup {ZAtom(x, Order) : x \in {"a", "b", "c", "d"}}
Pts == {Inf, Generator, PNeg(Generator), PMul("7", Generator)}
ASSUME IsPoint(Generator)
ASSUME PMul(Order, Generator) = Inf
ASSUME \A k \in Samples, p \in Pts : ZPointMul(k, p, FieldP) = PMul(k, p)
ASSUME \A j, k \in Samples : Scale(SAdd(j, k), Generator) = PAdd(Scale(j, Generator), Scale(k, Generator))
\* the generator has been multiplied often by now: from its table of multiples
ASSUME \A j \in 1..24 : LET k == ZAtom(ToString(j), Order) IN Scale(k, Generator) = PMul(k, Generator)
ASSUME \A j \in Samples, k \in Samples : Scale(SMul(j, k), Generator) = Scale(j, Scale(k, Generator))
=============================================================================
