------------------------------ MODULE TraceWire --------------------------------
(* C02: a recorded message is a behaviour of Stream. C03: bytes that are not  *)
(* an encoding are refused, or what they decode to is a point of the group    *)
(* that behaves like one.                                                     *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES queue, puts, i, id, live
vars == <<queue, puts, i, id, live>>
\* points and commitments are equal or not; a proof is at least equal to itself
M == INSTANCE Stream WITH SameValue <- LAMBDA a, b : a = b
Init == M!Init /\ i = 1 /\ id = 0 /\ live = FALSE
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want])) /\ live' = FALSE
Keep == UNCHANGED live

Key == CASE Ev.t = "point" -> <<"point", Ev.val.p>>
         [] Ev.t = "comm" -> <<"comm", ZMod(Ev.val.a, Order), ZMod(Ev.val.b, Order)>>
         [] OTHER -> <<Ev.t, ToString(Len(puts) + 1)>>
Comparable == Head(queue).key[1] \in {"point", "comm"}
\* several proofs may be equal by chance or by choice of their randomness
Got == /\ Ev.panic = "" /\ Ev.err = ""
       /\ Ev.n = Head(queue).n
       /\ IF Comparable THEN ToSet(Ev.eq) = M!Twins ELSE Head(queue).at \in ToSet(Ev.eq)
       /\ (Head(queue).key[1] \in {"know", "refresh"}) => Ev.ver
Want == [n |-> Head(queue).n, eq |-> M!Twins]

(* What an accepted value does when it is used: the results listed by the     *)
(* harness (usePoint) for a point q.                                          *)
Uses(q) == <<PAdd(q, Generator), PAdd(q, q), PNeg(q), Inf, Scale("3", q), PNeg(q), Inf, q>>
Sound == /\ Ev.panic = ""
         /\ Ev.prefix => Ev.err # ""
         /\ Ev.err = "" => /\ Ev.use = ""
                           /\ \A q \in ToSet(Ev.pts) : Len(q) \in {0, 2} /\ IsPoint(q)
                           /\ (Ev.t = "point" /\ Ev.pts # << >>) => Ev.res = Uses(Ev.pts[1])
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> queue' = << >> /\ puts' = << >> /\ id' = Ev.id /\ live' = TRUE
         [] Ev.op = "end" -> UNCHANGED <<queue, puts, id, live>>
         [] ~live -> UNCHANGED <<queue, puts, id, live>>
         [] live /\ Ev.op = "put" -> /\ M!Put(Key, Ev.n) /\ UNCHANGED id
                                     /\ IF Prop = "C02" /\ (Ev.panic # "" \/ Ev.err # "") THEN Reject("encoded") ELSE Keep
         [] live /\ Ev.op = "get" -> M!Get /\ UNCHANGED id /\ IF Prop = "C02" /\ ~Got THEN Reject(Want) ELSE Keep
         [] live /\ Ev.op = "left" -> UNCHANGED <<queue, puts, id>> /\ IF Prop = "C02" /\ Ev.n # M!Total(queue) THEN Reject([left |-> M!Total(queue)]) ELSE Keep
         [] live /\ Ev.op = "bad" -> /\ UNCHANGED <<queue, puts, id>>
                                     /\ IF Prop = "C03" /\ ~Sound THEN Reject("an error, or a point") ELSE Keep
         [] OTHER -> Reject("no such step") /\ UNCHANGED <<queue, puts, id>>
Spec == Init /\ [][Next]_vars
=============================================================================
