----------------------------- MODULE MCCommitReveal ----------------------------
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Honest, Cheats, Values
RECURSIVE Add(_, _)
Add(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + Add(f, S \ {x})) % 3
VARIABLES value, phase, com, rev, blames, early
INSTANCE CommitReveal WITH Sum <- LAMBDA f : Add(f, DOMAIN f)
=============================================================================
