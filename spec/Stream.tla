------------------------------- MODULE Stream --------------------------------
(* A message made of encoded values: what was put first is what is got first, *)
(* whole, and each value takes away exactly the bytes that it added.          *)
EXTENDS Integers, Sequences
CONSTANTS SameValue(_, _)   \* the values that cannot be told apart
VARIABLES queue,            \* what was put and not yet got: [key, n, at]
          puts              \* everything that was put: keys
Init == queue = << >> /\ puts = << >>
Put(key, n) == queue' = Append(queue, [key |-> key, n |-> n, at |-> Len(puts) + 1]) /\ puts' = Append(puts, key)
Get == queue # << >> /\ queue' = Tail(queue) /\ UNCHANGED puts
\* the numbers of all values that equal the next one
Twins == {j \in DOMAIN puts : SameValue(puts[j], Head(queue).key) \/ j = Head(queue).at}
RECURSIVE Total(_)
Total(q) == IF q = << >> THEN 0 ELSE q[1].n + Total(Tail(q))
=============================================================================
