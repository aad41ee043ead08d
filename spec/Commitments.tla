----------------------------- MODULE Commitments -----------------------------
(* A register machine over commitments. A commitment is the pair <<v, r>> of  *)
(* the committed value and the randomizer, modulo the order of the group; the *)
(* pair is all there is to it. Enc is what the outside sees of it: the two    *)
(* points r*G and v*G + r*H.                                                  *)
EXTENDS Integers, Sequences
CONSTANTS
    Regs,
    SAdd(_, _), SNeg(_), SMul(_, _), SRed(_), SZero   \* arithmetic of exponents
VARIABLES reg
Neutral == <<SZero, SZero>>
Init == reg = [r \in Regs |-> Neutral]

Result(r, e) ==
    CASE e.op = "create"  -> <<SRed(e.v), SRed(e.r)>>
      [] e.op = "neutral" -> Neutral
      [] e.op = "compose" -> <<SAdd(r[e.a][1], r[e.b][1]), SAdd(r[e.a][2], r[e.b][2])>>
      [] e.op = "exp"     -> <<SMul(e.k, r[e.a][1]), SMul(e.k, r[e.a][2])>>
      [] e.op = "inv"     -> <<SNeg(r[e.a][1]), SNeg(r[e.a][2])>>
      [] e.op \in {"trip", "into"} -> r[e.a]          \* encoded and decoded
After(r, e) == [r EXCEPT ![e.d] = Result(r, e)]
Step(e) == reg' = After(reg, e)
=============================================================================
