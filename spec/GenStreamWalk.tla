---------------------------- MODULE GenStreamWalk -----------------------------
(* Putting and getting in any order.                                          *)
EXTENDS WireBase
VARIABLES queue, puts, hist
Depth == atoi(IOEnv.DEPTH)
M == INSTANCE Stream WITH SameValue <- LAMBDA a, b : a = b
Pool == <<Point(Inf), Point(Times("82")), Point(Times(At("k"))), Point(Generator), CommV("0", "0"), CommV("0", At("k")), CommV("99", "7a"), CommV(At("k"), At("l")), KnowV("1", "0", "0", <<"0", "0">>), KnowV(At("h"), At("v"), At("r"), << >>),
           KnowV(At("h"), "0", "0", <<"ff", At("z")>>), RefreshV("1", "0", "0", <<"0">>), RefreshV(At("h"), At("v"), At("r"), << >>), Noop>>
Init == M!Init /\ hist = << >> /\ nothing = 0
DoPut == \E v \in DOMAIN Pool : M!Put(Pool[v], 0) /\ hist' = Append(hist, Put(Pool[v]))
DoGet == M!Get /\ \E ch \in {"all", "1", "3", "grow"}, into \in BOOLEAN : hist' = Append(hist, Get(Head(queue).key.t, ch, into))
Next == (DoPut \/ DoGet) /\ UNCHANGED nothing
Spec == Init /\ [][Next]_<<queue, puts, hist>>
Emit == Len(hist) # Depth \/ PrintT(ToJson(Scen(hist \o <<Left>>)))
=============================================================================
