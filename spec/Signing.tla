-------------------------------- MODULE Signing --------------------------------
(* Threshold signing. Presignatures are queued at each party; an attempt to    *)
(* sign takes the oldest one away, whatever comes of it, and consists of       *)
(* exchanges in each of which a party needs the contributions of t parties,    *)
(* its own included. The signature on m has r = hash of the nonce's public key *)
(* and s with s * tau = m * rho + r * eta.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SAdd(_, _), SMul(_, _)
\* lost[x]: pairs <<from, to>> of messages of exchange x that do not arrive; alive: who sends in it
Hears(p, alive, lost, t) == Cardinality({q \in alive : q = p \/ <<q, p>> \notin lost}) >= t
Continue(alive, lost, t) == {p \in alive : Hears(p, alive, lost, t)}
RECURSIVE After(_, _, _)
After(alive, losses, t) == IF losses = << >> THEN alive ELSE After(Continue(alive, Head(losses), t), Tail(losses), t)
Equation(m, r, s, rho, eta, tau) == SMul(s, tau) = SAdd(SMul(m, rho), SMul(r, eta))
\* the queue
Presigned(queue, x, ok) == IF ok THEN Append(queue, x) ELSE queue
Taken(queue) == IF queue = << >> THEN << >> ELSE Tail(queue)
=============================================================================
