-------------------------------- MODULE Curve --------------------------------
(* A register machine over a group: what a user of the curve package can do   *)
(* with points. Values are immutable: a step changes the register it is       *)
(* directed to and nothing else (no operand, no scalar, no shared constant).  *)
(* The group is abstract. MCCurve runs the machine on a small elliptic curve  *)
(* and shows that it refines the machine on exponents; GenCurve runs it on    *)
(* exponents modulo the real order to generate scenarios; TraceCurve runs it  *)
(* on secp256k1 against recorded executions of the code.                      *)
EXTENDS Integers, Sequences
CONSTANTS
    Regs,                 \* names of the registers
    GAdd(_, _), GNeg(_), GScale(_, _), GId, GGen,
    Loaded(_)             \* the point with given coordinates that a "load" step decodes
VARIABLES reg

Init == reg = [r \in Regs |-> GId]

\* the point a step produces; a step is a record [op, d, a, b, k, ...]
Result(r, e) ==
    CASE e.op = "neutral" -> GId
      [] e.op = "gen"     -> GGen
      [] e.op = "load"    -> Loaded(e)
      [] e.op = "trip"    -> r[e.a]                    \* encoded and decoded
      [] e.op = "add"     -> GAdd(r[e.a], r[e.b])
      [] e.op = "neg"     -> GNeg(r[e.a])
      [] e.op = "scale"   -> GScale(e.k, r[e.a])
      [] e.op = "base"    -> GScale(e.k, GGen)

After(r, e) == [r EXCEPT ![e.d] = Result(r, e)]
Step(e) == reg' = After(reg, e)
=============================================================================
