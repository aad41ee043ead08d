------------------------------ MODULE MCConnect -------------------------------
(* All greetings of a few connections, in all orders of taking and settling.  *)
EXTENDS Connect, TLC
CONSTANTS N, K
Peers == (0..(N - 1)) \ {Me}
Conns == 1..K
Init == CInit /\ greet \in [Conn -> {Cut} \cup 0..N]
Spec == Init /\ [][CNext]_cvars /\ \A a \in Acceptor : WF_cvars(Settle(a)) /\ WF_cvars(\E c \in Conn : Take(a, c))
=============================================================================
