---------------------------- MODULE GenProofShared ----------------------------
(* The same factory, commitments, numbers and proofs used over and over, with *)
(* every aliasing of arguments, by one goroutine and then by several.         *)
EXTENDS ProofBase
Pre(v, r, s) == <<CommS(1, v, r), CommS(2, "0", s), Compose(3, 1, 2), CommS(4, r, v), Know(1, 1, v, r), Refresh(2, 1, 3, s), Know(3, 3, v, ZAdd(r, s)), Refresh(4, 3, 1, SNeg(s)),
                  \* a proof for a commitment and itself
                  Refresh(5, 1, 1, "0"), Know(6, 2, "0", s)>>
Body(b, v, r, s) == <<VerK(1, 1), VerK(1, 2), VerR(2, 1, 3), VerR(2, 3, 1), VerK(3, 3), VerK(1, 1), VerR(2, 1, 1), VerR(5, 1, 1), VerR(5, 3, 3), VerK(6, 2), Tripped(VerK(1, 1)), Tripped(VerR(2, 1, 3)),
     Know(10 + b, 1, v, r), VerK(10 + b, 1), VerK(10 + b, 4), Refresh(11 + b, 1, 3, s), VerR(11 + b, 1, 3), VerR(11 + b, 1, 4), Know(10 + b, 1, v, r), VerK(10 + b, 1),
     ExpS(11, 1, Order), ExpS(12, 1, r), Compose(13, 1, 1), InvS(14, 3), Compose(15, 3, 14), Know(12 + b, 11, "0", "0"), VerK(12 + b, 11), VerR(4, 3, 1), VerR(4, 1, 3), VerK(1, 1), VerR(2, 1, 3)>>
Shared(h, v, r, s, n) == [f |-> F1(h), shared |-> TRUE, steps |-> Pre(v, r, s) \o Body(1, v, r, s), threads |-> [k \in 1..n |-> Body(1, v, r, s)]]
ASSUME \A h \in {Hb, "1"}, v \in {"0", At("v"), Order, ZAdd(Two256, At("w"))}, r \in {"0", At("r"), ZAdd(Order, At("r"))}, s \in {"0", At("s"), Order} :
    PrintT(ToJson(Shared(h, v, r, s, 4)))
\* what the threads do was never done before, and they begin at different places
Apart(h, v, r, s, n) == [f |-> F1(h), shared |-> TRUE, steps |-> Pre(v, r, s), threads |-> [k \in 1..n |-> LET b == Body(1, v, r, s) IN IF s = "0" THEN b ELSE SubSeq(b, 1 + 3 * (k - 1), 12) \o SubSeq(b, 1, 3 * (k - 1)) \o SubSeq(b, 13, Len(b))]]
ASSUME \A h \in {Hb, "1"}, v \in {"0", At("v")}, r \in {At("r"), "5"}, s \in {"0", At("s")} : PrintT(ToJson(Apart(h, v, r, s, 4)))
=============================================================================
