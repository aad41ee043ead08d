------------------------------ MODULE TraceConnect ------------------------------
(* S05: what a recorded party did with the connections it was offered.        *)
EXTENDS Integers, Sequences, BigZ, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, greet, slot,    \* the scenario; what its offers say; for every party the offers that may be its connection
          i, id, live
vars == <<sc, greet, slot, i, id, live>>
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want])) /\ live' = FALSE
\* greetings of the offers; number k is the k-th
Said(s) == [k \in DOMAIN s.offers |-> LET g == s.offers[k].greet IN IF Len(g) = 2 /\ s.offers[k].end = "" THEN g[1] + 256 * g[2] ELSE -2]
C == INSTANCE Connect WITH Me <- 0, Peer <- {}, Conn <- {}, coming <- {}, acc <- << >>, closed <- {}
Peers == (0..(sc.n - 1)) \ {sc.me}
\* an offer that another one of the same party precedes by a long time is too late
Late(k) == \E j \in 1..(k - 1) : sc.offers[j].settle >= 200 /\ greet[j] = greet[k]
May(q) == {k \in DOMAIN sc.offers : C!Names(k, q) /\ ~Late(k)}
Slot(q) == IF slot = << >> THEN May(q) ELSE slot[q + 1]
\* the name of what an offer sends in a round
Name(k, r) == "o" \o ToString(k - 1) \o "." \o ToString(r)
Init == sc = [n |-> 0] /\ greet = << >> /\ slot = << >> /\ i = 1 /\ id = 0 /\ live = FALSE
Got(q) == {x \in ToSet(Ev.got) : x.q = q}
From(q, k) == \E x \in Got(q) : \E t \in ToSet(x.tags) : t = Name(k, Ev.r)
RoundOk == /\ Ev.ok /\ ~Ev.twice
           /\ {x.q : x \in ToSet(Ev.got)} = Peers
           /\ \A q \in Peers : \E k \in Slot(q) : From(q, k)
OutOk(q) == LET d == Ev.out[q + 1]
                h == <<sc.me % 256, sc.me \div 256>>
            IN /\ d # << >>
               \* what was dialled before is closed, and said nothing else
               /\ \A k \in 1..(Len(d) - 1) : d[k].closed /\ IsPrefix(d[k].greet, h) /\ d[k].frames = << >> /\ d[k].rest = 0
               /\ LET l == d[Len(d)] IN /\ l.closed /\ l.greet = h /\ l.rest = 0
                                        /\ Len(l.frames) = sc.turns
                                        /\ \A r \in 1..sc.turns : l.frames[r].id = sc.me /\ l.frames[r].rid = ZInt(r - 1)
\* after Stop everything that was taken is closed
InOk == \A k \in DOMAIN sc.offers : Ev.in[k].taken => Ev.in[k].closed
StoppedOk == InOk /\ (\A q \in Peers : OutOk(q)) /\ Ev.out[sc.me + 1] = << >>
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> /\ id' = Ev.id /\ live' = TRUE
                               /\ sc' = IF "sc" \in DOMAIN Ev THEN Ev.sc ELSE [n |-> 0]
                               /\ slot' = << >> /\ greet' = IF "sc" \in DOMAIN Ev THEN Said(Ev.sc) ELSE << >>
         [] Ev.op = "end" -> UNCHANGED <<sc, greet, slot, id, live>>
         [] ~live -> UNCHANGED <<sc, greet, slot, id, live>>
         [] live /\ Ev.op = "round" -> /\ IF RoundOk THEN UNCHANGED live ELSE Reject([peers |-> Peers, from |-> [q \in Peers |-> Slot(q)]])
                                       /\ slot' = [q \in 1..sc.n |-> IF q - 1 \in Peers THEN {k \in Slot(q - 1) : From(q - 1, k)} ELSE {}]
                                       /\ UNCHANGED <<sc, greet, id>>
         [] live /\ Ev.op = "stopped" -> /\ IF StoppedOk THEN UNCHANGED live ELSE Reject([closed |-> InOk, dialled |-> {q \in Peers : ~OutOk(q)}])
                                         /\ UNCHANGED <<sc, greet, slot, id>>
         [] OTHER -> Reject("no such step") /\ UNCHANGED <<sc, greet, slot, id>>
Spec == Init /\ [][Next]_vars
=============================================================================
