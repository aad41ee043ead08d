------------------------------- MODULE Rounds --------------------------------
(* Synchronous rounds over pairwise connections. Each party enters a round    *)
(* with a payload for every other party, exchanges one frame with each of     *)
(* them, hands what arrived in order to a callback, and returns success or    *)
(* the set of parties with whom the exchange did not work.                    *)
(*                                                                            *)
(* A frame is [id, rid, got, bad]: claimed sender, claimed round, payload;    *)
(* bad frames are cut or have an impossible length, and nothing after them    *)
(* can be read.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
    Party,            \* the parties
    Traitor,          \* those that may send anything
    MaxLie,           \* so many frames of a traitor are on the way at most
    Final,             \* number of the last round
    Pay(_, _, _),     \* what a party passes in a round for another party
    Accepts(_, _, _)  \* does the callback of a party accept a payload from a peer
Other(p) == Party \ {p}

\* one exchange, as the receiver sees it: queue holds what the peer sent and was not yet read
Good(queue, from, r) == queue # << >> /\ ~Head(queue).bad /\ Head(queue).id = from /\ Head(queue).rid = r
Frame(p, r, x) == [id |-> p, rid |-> r, got |-> x, bad |-> FALSE]

VARIABLES
    round, phase,     \* of every party: the number of its round; "idle" or "in" it
    chan,             \* chan[p][q]: frames on the way from p to q
    cut,              \* pairs <<p, q>> whose connection from p to q is broken
    sent, recv,       \* sent[p]: peers to whom sending is finished, with success or not
    calls,            \* callbacks of the round in progress: set of <<peer, payload>>
    result            \* result[p]: for every finished round the set of failed peers and the callbacks
vars == <<round, phase, chan, cut, sent, recv, calls, result>>

None == [q \in {} |-> "ok"]
Init ==
    /\ round = [p \in Party |-> 0] /\ phase = [p \in Party |-> "idle"]
    /\ chan = [p \in Party |-> [q \in Party |-> << >>]]
    /\ cut = {}
    /\ sent = [p \in Party |-> None] /\ recv = [p \in Party |-> None]
    /\ calls = [p \in Party |-> << >>]
    /\ result = [p \in Party |-> << >>]

Honest == Party \ Traitor
Enter(p) ==
    /\ p \in Honest /\ phase[p] = "idle" /\ round[p] <= Final
    /\ phase' = [phase EXCEPT ![p] = "in"]
    /\ sent' = [sent EXCEPT ![p] = None] /\ recv' = [recv EXCEPT ![p] = None] /\ calls' = [calls EXCEPT ![p] = << >>]
    /\ UNCHANGED <<round, chan, cut, result>>
Send(p, q) ==
    /\ phase[p] = "in" /\ q \in Other(p) \ DOMAIN sent[p]
    /\ IF <<p, q>> \in cut
       THEN sent' = [sent EXCEPT ![p] = [x \in DOMAIN @ \cup {q} |-> IF x = q THEN "failed" ELSE @[x]]] /\ UNCHANGED chan
       ELSE /\ chan' = [chan EXCEPT ![p][q] = Append(@, Frame(p, round[p], Pay(p, round[p], q)))]
            /\ sent' = [sent EXCEPT ![p] = [x \in DOMAIN @ \cup {q} |-> IF x = q THEN "ok" ELSE @[x]]]
    /\ UNCHANGED <<round, phase, cut, recv, calls, result>>
Receive(p, q) ==
    /\ phase[p] = "in" /\ q \in Other(p) \ DOMAIN recv[p]
    /\ \/ /\ chan[q][p] # << >>
          /\ IF Good(chan[q][p], q, round[p])
             THEN recv' = [recv EXCEPT ![p] = [x \in DOMAIN @ \cup {q} |-> IF x = q THEN "ok" ELSE @[x]]] /\ calls' = [calls EXCEPT ![p] = Append(@, <<q, Head(chan[q][p]).got>>)]
             ELSE recv' = [recv EXCEPT ![p] = [x \in DOMAIN @ \cup {q} |-> IF x = q THEN "failed" ELSE @[x]]] /\ UNCHANGED calls
          \* nothing can be read after a bad frame
          /\ chan' = [chan EXCEPT ![q][p] = IF Head(@).bad THEN @ ELSE Tail(@)]
       \/ /\ chan[q][p] = << >> /\ <<q, p>> \in cut
          /\ recv' = [recv EXCEPT ![p] = [x \in DOMAIN @ \cup {q} |-> IF x = q THEN "failed" ELSE @[x]]]
          /\ UNCHANGED <<calls, chan>>
    /\ UNCHANGED <<round, phase, cut, sent, result>>
Failed(p) == {q \in Other(p) : sent[p][q] = "failed" \/ recv[p][q] = "failed"}
             \cup {c[1] : c \in {calls[p][k] : k \in {j \in DOMAIN calls[p] : ~Accepts(p, calls[p][j][1], calls[p][j][2])}}}
Return(p) ==
    /\ phase[p] = "in" /\ DOMAIN sent[p] = Other(p) /\ DOMAIN recv[p] = Other(p)
    /\ phase' = [phase EXCEPT ![p] = "idle"] /\ round' = [round EXCEPT ![p] = @ + 1]
    /\ result' = [result EXCEPT ![p] = Append(@, [failed |-> Failed(p), calls |-> calls[p]])]
    /\ UNCHANGED <<chan, cut, sent, recv, calls>>

\* the environment: connections break, traitors write what they like
Break(p, q) == p # q /\ <<p, q>> \notin cut /\ (p \in Traitor \/ q \in Traitor) /\ cut' = cut \cup {<<p, q>>} /\ UNCHANGED <<round, phase, chan, sent, recv, calls, result>>
Lie(p, q, f) ==
    /\ p \in Traitor /\ q \in Honest /\ <<p, q>> \notin cut /\ Len(chan[p][q]) < MaxLie
    /\ chan' = [chan EXCEPT ![p][q] = Append(@, f)]
    /\ UNCHANGED <<round, phase, cut, sent, recv, calls, result>>

Party1(p) == Enter(p) \/ (\E q \in Other(p) : Send(p, q) \/ Receive(p, q)) \/ Return(p)

------------------------------------------------------------------------------
(* What the rounds are for. Round r of party p is result[p][r + 1].           *)
Ok(p, k) == result[p][k].failed = {}
Calls(p, k) == result[p][k].calls
From(p, k) == {Calls(p, k)[j][1] : j \in DOMAIN Calls(p, k)}
\* S01: one callback per peer, none for oneself, with what an honest peer passed
Delivery == \A p \in Honest : \A k \in DOMAIN result[p] :
    /\ Len(Calls(p, k)) = Cardinality(From(p, k)) /\ p \notin From(p, k)
    /\ Ok(p, k) => From(p, k) = Other(p)
    /\ \A c \in {Calls(p, k)[j] : j \in DOMAIN Calls(p, k)} : c[1] \in Honest => c[2] = Pay(c[1], k - 1, p)
\* S03: callbacks for everything that arrived, failure for everybody else
Exact == \A p \in Honest : \A k \in DOMAIN result[p] : Other(p) \ From(p, k) \subseteq result[p][k].failed
\* S04: nobody returns from a successful round before all honest parties have entered it
Barrier == \A p \in Honest : \A k \in DOMAIN result[p] : Ok(p, k) => \A q \in Honest : round[q] > k - 1 \/ (round[q] = k - 1 /\ phase[q] = "in")
=============================================================================
