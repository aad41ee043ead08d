------------------------------ MODULE MCRounds --------------------------------
EXTENDS Rounds, TLC
P2 == {0, 2}
P3 == 0..2
CONSTANT Lies
SomeLies == {[id |-> 2, rid |-> 0, got |-> <<2, 0, "lie">>, bad |-> FALSE], [id |-> 2, rid |-> 1, got |-> <<2, 1, "lie">>, bad |-> FALSE],
         [id |-> 1, rid |-> 0, got |-> <<1, 0, "lie">>, bad |-> FALSE], [id |-> 2, rid |-> 0, got |-> <<2, 0, "lie">>, bad |-> TRUE]}
NoLies == {}
PayOf(p, r, q) == <<p, r, q>>
Agrees(p, q, x) == ~(q = 2 /\ x[2] = 1 /\ p = 0)
Next == \/ \E p \in Honest : Party1(p)
        \/ \E p, q \in Party : Break(p, q)
        \/ \E p, q \in Party, f \in Lies : Lie(p, q, f)
Spec == Init /\ [][Next]_vars /\ \A p \in Honest : WF_vars(Party1(p)) /\ \A t \in Traitor, q \in Party : WF_vars(Break(t, q))
\* a foreign frame reaches no callback
Foreign == \A p \in Honest : \A k \in DOMAIN result[p] : \A j \in DOMAIN Calls(p, k) : Calls(p, k)[j][1] = 2 => Calls(p, k)[j][2][2] = k - 1
Finish == <>(\A p \in Honest : Len(result[p]) = Final + 1)
=============================================================================
