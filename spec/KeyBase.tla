-------------------------------- MODULE KeyBase --------------------------------
(* Vocabulary of the scenarios for the two programs (harness/hcmd).            *)
EXTENDS BigZ, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
Tier == IOEnv.TIER
Str(k) == ToString(k)
\* the number 16^k
RECURSIVE Sixteen(_)
Sixteen(k) == IF k = 0 THEN "1" ELSE LET h == Sixteen(k \div 2) IN IF k % 2 = 0 THEN ZMul(h, h) ELSE ZMul(ZMul(h, h), "10")
\* a number of exactly b bytes
Sized(name, b) == LET top == Sixteen((2 * b) - 1) IN ZAdd(top, ZAtom(Seed \o name, top))
Key(name, a, b, c) == <<Sized(name \o "n", a), Sized(name \o "l", b), Sized(name \o "p", c)>>
Local(k) == "10.0.0." \o Str(k + 1) \o ":" \o Str(7000 + (7 * k))
Gen(arg, n, keys, read) == [kind |-> "gen", arg |-> arg, n |-> n, files |-> FALSE, lines |-> << >>, ending |-> "", keys |-> keys, read |-> read]
From(s, lines, ending) == [s EXCEPT !.files = TRUE, !.lines = lines, !.ending = ending]
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
