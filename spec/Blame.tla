--------------------------------- MODULE Blame ---------------------------------
(* Protocols in rounds without tolerance: whoever cannot use the message of a  *)
(* party stops, and says whose message that was. Who stopped says nothing any  *)
(* more, so the others stop one round later, because of it.                    *)
EXTENDS Integers, FiniteSets
\* bad: triples of a round, a sender and a receiver that cannot use the message
\* state: how far everybody has got
Start(P) == [stopped |-> [p \in P |-> 0], blame |-> [p \in P |-> {}]]
Unusable(s, P, bad, r, p) == {q \in P \ {p} : s.stopped[q] # 0 \/ <<r, q, p>> \in bad}
Round(s, P, bad, r) ==
    LET u(p) == IF s.stopped[p] = 0 THEN Unusable(s, P, bad, r, p) ELSE {}
    IN [stopped |-> [p \in P |-> IF u(p) # {} THEN r ELSE s.stopped[p]],
        blame |-> [p \in P |-> IF u(p) # {} THEN u(p) ELSE s.blame[p]]]
RECURSIVE After(_, _, _)
After(P, bad, r) == IF r = 0 THEN Start(P) ELSE Round(After(P, bad, r - 1), P, bad, r)
=============================================================================
