------------------------------- MODULE Proofs --------------------------------
(* Sigma protocols of knowledge of a commitment's content ("know") and of the *)
(* refreshment of a commitment ("refresh"), as relations between exponents.   *)
(* A commitment is the pair <<a, b>> of the logarithms of its two points;     *)
(* with the base h and content (v, r) it is <<r, v + h*r>>.                   *)
(* A statement is <<c>> for know and <<c1, c2>> for refresh; what is proved   *)
(* concerns Delta: c itself, or c2 - c1.                                      *)
EXTENDS Integers, Sequences
CONSTANTS SAdd(_, _), SNeg(_), SMul(_, _), SZero
SSubt(a, b) == SAdd(a, SNeg(b))
Comm(h, v, r) == <<r, SAdd(v, SMul(h, r))>>
PairAdd(c, d) == <<SAdd(c[1], d[1]), SAdd(c[2], d[2])>>
PairNeg(c) == <<SNeg(c[1]), SNeg(c[2])>>
PairMul(k, c) == <<SMul(k, c[1]), SMul(k, c[2])>>
Delta(stmt) == IF Len(stmt) = 1 THEN stmt[1] ELSE PairAdd(stmt[2], PairNeg(stmt[1]))
Zero == <<SZero, SZero>>

\* the relation: w = <<v, r>> is the content (v is zero for refresh)
Witness(h, stmt, w) == Delta(stmt) = Comm(h, w[1], w[2])
\* the first message made with randomness <<rho, sigma>>, and the responses <<z2, z1>> to the challenge e
First(h, rand) == Comm(h, rand[1], rand[2])
Respond(rand, w, e) == <<SAdd(rand[1], SMul(e, w[1])), SAdd(rand[2], SMul(e, w[2]))>>
\* what a verifier checks
Equation(h, stmt, xy, e, z) == PairAdd(xy, PairMul(e, Delta(stmt))) = Comm(h, z[1], z[2])
=============================================================================
