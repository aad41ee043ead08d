------------------------------- MODULE Connect -------------------------------
(* How a party gets its incoming connections. Connections arrive in any order *)
(* and from anybody. A connection begins with a greeting: the number of the   *)
(* party that dials. As many acceptors as there are peers listen; everyone of *)
(* them takes a connection, reads its greeting, and either makes it the       *)
(* connection from the party it names, or closes it and listens again.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
    Me, Peer,         \* this party and the others
    Conn              \* all connections that will ever arrive
None == -1
Cut == -2
\* a connection that may become the one from q
VARIABLES
    greet,            \* what each connection says: a number, or Cut when it ends before; never changes
    coming,           \* connections that have not been taken
    acc,              \* acceptor -> the connection it reads, None when it listens, Cut when it is done
    slot,             \* peer -> its connection or None
    closed            \* connections that were closed
cvars == <<greet, coming, acc, slot, closed>>
Names(c, q) == greet[c] = q
Proper(c) == greet[c] \in Peer
Acceptor == Peer
CInit == /\ coming = Conn /\ closed = {}
         /\ acc = [a \in Acceptor |-> None] /\ slot = [q \in Peer |-> None]
Take(a, c) == /\ acc[a] = None /\ c \in coming
              /\ coming' = coming \ {c} /\ acc' = [acc EXCEPT ![a] = c]
              /\ UNCHANGED <<greet, slot, closed>>
Settle(a) == /\ acc[a] \notin {None, Cut}
             /\ LET c == acc[a] IN
                IF Proper(c) /\ slot[greet[c]] = None
                THEN slot' = [slot EXCEPT ![greet[c]] = c] /\ acc' = [acc EXCEPT ![a] = Cut] /\ UNCHANGED closed
                ELSE closed' = closed \cup {c} /\ acc' = [acc EXCEPT ![a] = None] /\ UNCHANGED slot
             /\ UNCHANGED <<greet, coming>>
CNext == \E a \in Acceptor : Settle(a) \/ \E c \in Conn : Take(a, c)

Established == \A q \in Peer : slot[q] # None
(* S05 *)
Attributed == \A q \in Peer : slot[q] # None => Names(slot[q], q)
Apart == \A p, q \in Peer : p # q /\ slot[p] # None => slot[p] # slot[q]
\* what was taken and is no party's connection is closed in the end, and nothing else is
Refused == /\ \A c \in closed : \A q \in Peer : slot[q] # c
           /\ Established => closed = Conn \ (coming \cup {slot[q] : q \in Peer})
Stays == [][\A q \in Peer : slot[q] # None => slot'[q] = slot[q]]_cvars
Complete == (\A q \in Peer : \E c \in Conn : Names(c, q)) => <>Established
=============================================================================
