------------------------------ MODULE TraceRounds ------------------------------
(* Recorded rounds of real servers, judged against Rounds. PROP selects:      *)
(*  S01  who gets which bytes; S02  what is refused and what is transmitted;  *)
(*  S03  the reported parties; S04  barrier and termination.                  *)
(* What a peer sends in a scripted scenario is known from the scenario.       *)
EXTENDS Integers, Sequences, BigZ, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES sc,        \* the scenario
          queue,     \* open: frames of every peer that are not read yet
          ended,     \* open: peers whose stream ends after that
          broken,    \* open: peers to whom nothing can be sent any more
          entered,   \* closed: the rounds that parties have entered
          calls,     \* callbacks of the current round of every party
          i, id, live
vars == <<sc, queue, ended, broken, entered, calls, i, id, live>>
data == <<sc, queue, ended, broken, entered, calls>>
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want])) /\ live' = FALSE
Keep == UNCHANGED live
R == INSTANCE Rounds WITH Party <- {}, Traitor <- {}, Final <- 0, MaxLie <- 0, Pay <- LAMBDA p, r, q : 0, Accepts <- LAMBDA p, q, x : TRUE,
       round <- 0, phase <- 0, chan <- 0, cut <- 0, sent <- 0, recv <- 0, result <- 0

Init == sc = [n |-> 0] /\ queue = << >> /\ ended = {} /\ broken = {} /\ entered = {} /\ calls = << >> /\ i = 1 /\ id = 0 /\ live = FALSE
Open == sc.kind = "open"
All == 0..(sc.n - 1)
Content(x) == IF x.len = 0 THEN "" ELSE x.tag
\* what p passes for q in round r
Passed(rd, q) == IF rd.common THEN Content(rd.pay[1]) ELSE Content(rd.pay[q + 1])

(* One scripted exchange with q.                                              *)
Item(f) == [id |-> f.id, rid |-> f.rid, got |-> Content(f), bad |-> (f.hdr # "" \/ f.cut >= 0)]
Script(r, q) == sc.rounds[r + 1].peers[q + 1]
Pushed(r, q) == queue[q] \o [k \in DOMAIN Script(r, q).in.frames |-> Item(Script(r, q).in.frames[k])]
RecvOk(q) == R!Good(queue[q], q, ZInt(Ev.r))
SendOk(q) == q \notin broken
Rejected(r, q) == Script(r, q).reject
\* after the round: one frame is gone; after a bad one there is nothing
Consumed(q) == IF queue[q] = << >> \/ Head(queue[q]).bad THEN << >> ELSE Tail(queue[q])

(* The same for rounds among real parties.                                    *)
Plan(p, r) == sc.party[p + 1][r + 1]
DeadAt(p, r) == \E k \in 1..Len(sc.party[p + 1]) : k <= r + 1 /\ sc.party[p + 1][k].dead

Peers == All \ {Ev.p}
Arrives(q) == IF Open THEN RecvOk(q) ELSE ~DeadAt(q, Ev.r)
Sends(q) == IF Open THEN SendOk(q) ELSE ~DeadAt(q, Ev.r)
Right(q) == IF Open THEN Head(queue[q]).got ELSE Passed(Plan(q, Ev.r), Ev.p)
Refuses(q) == IF Open THEN Rejected(Ev.r, q) ELSE q \in ToSet(Plan(Ev.p, Ev.r).reject)
Failing == {q \in Peers : ~Arrives(q) \/ ~Sends(q) \/ Refuses(q)}
Mine == calls[Ev.p + 1]
Called == {Mine[k][1] : k \in DOMAIN Mine}
Missing == ToSet(Ev.missing)

CbOk == CASE Prop = "S01" -> /\ Ev.from \in Peers /\ Ev.from \notin Called
                             /\ Arrives(Ev.from) => Right(Ev.from) \in ToSet(Ev.got)
          [] Prop = "S02" -> Ev.from \in Peers /\ Arrives(Ev.from) /\ Right(Ev.from) \in ToSet(Ev.got)
          [] OTHER -> TRUE
RetOk == CASE Prop = "S01" -> /\ Ev.ok => Called = Peers
                              \* a round in which nothing and nobody fails delivers everything, and leaves the payloads alone
                              /\ (Failing = {}) => (Ev.ok /\ Called = Peers)
                              /\ Ev.same
           [] Prop = "S02" -> \A q \in Peers : ~Arrives(q) => (~Ev.ok /\ Ev.rerr /\ q \in Missing)
           [] Prop = "S03" -> /\ Ev.ok = (Failing = {})
                              /\ ~Ev.ok => Ev.rerr /\ Missing = Failing /\ Len(Ev.missing) = Cardinality(Missing)
                              /\ Called = {q \in Peers : Arrives(q)}
           [] Prop = "S04" -> /\ Open \/ \A q \in Peers : (Ev.ok \/ q \notin Missing) => <<q, Ev.r>> \in entered
                              \* nobody fails when nobody and nothing fails
                              /\ (Failing = {}) => Ev.ok
           [] OTHER -> TRUE
RetWant == [failing |-> Failing, arrives |-> {q \in Peers : Arrives(q)}, called |-> Called]

(* What was transmitted to a scripted peer in round r: this round's frame.    *)
SentOk(q) == LET t == Ev.to[ToString(q)]
             IN \/ t.frames = << >>
                \/ /\ Len(t.frames) = 1
                   /\ t.frames[1].id = sc.me /\ t.frames[1].rid = ZInt(Ev.r)
                   /\ Passed(sc.rounds[Ev.r + 1], q) \in ToSet(t.frames[1].got)
AllSent == Prop = "S02" => \A q \in All \ {sc.me} : SentOk(q)
AllDelivered == Prop = "S01" => \A q \in All \ {sc.me} : (q \notin broken) => Len(Ev.to[ToString(q)].frames) <= 1

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> /\ id' = Ev.id /\ live' = TRUE
                               /\ sc' = IF "sc" \in DOMAIN Ev THEN Ev.sc ELSE [n |-> 0]
                               /\ queue' = [q \in 0..(sc'.n - 1) |-> << >>] /\ ended' = {} /\ broken' = {} /\ entered' = {}
                               /\ calls' = [q \in 1..sc'.n |-> << >>]
         [] Ev.op = "end" -> UNCHANGED <<data, id, live>>
         [] ~live -> UNCHANGED <<data, id, live>>
         [] live /\ Ev.op = "enter" ->
              /\ calls' = [calls EXCEPT ![Ev.p + 1] = << >>]
              /\ entered' = entered \cup {<<Ev.p, Ev.r>>}
              /\ IF Open THEN /\ queue' = [q \in All |-> IF q = sc.me \/ q \in ended THEN queue[q] ELSE Pushed(Ev.r, q)]
                              /\ ended' = ended \cup {q \in All : q # sc.me /\ Script(Ev.r, q).in.end # ""}
                              /\ broken' = broken \cup {q \in All : q # sc.me /\ Script(Ev.r, q).out.on \in {"write", "flush"}}
                 ELSE UNCHANGED <<queue, ended, broken>>
              /\ UNCHANGED <<sc, id, live>>
         [] live /\ Ev.op = "cb" ->
              /\ IF CbOk THEN Keep ELSE Reject([called |-> Called, arrives |-> {q \in Peers : Arrives(q)}, right |-> [q \in {x \in Peers : Arrives(x)} |-> Right(q)]])
              /\ calls' = [calls EXCEPT ![Ev.p + 1] = Append(@, <<Ev.from, Ev.got>>)]
              /\ UNCHANGED <<sc, queue, ended, broken, entered, id>>
         [] live /\ Ev.op = "ret" ->
              /\ IF RetOk THEN Keep ELSE Reject(RetWant)
              /\ IF Open THEN queue' = [q \in All |-> Consumed(q)] ELSE UNCHANGED queue
              /\ UNCHANGED <<sc, ended, broken, entered, calls, id>>
         [] live /\ Ev.op = "sent" -> /\ IF AllSent /\ AllDelivered THEN Keep ELSE Reject([round |-> Ev.r]) 
                                      /\ UNCHANGED <<data, id>>
         [] live /\ Ev.op = "kept" -> /\ IF Prop = "S01" /\ Ev.bad # 0 THEN Reject("what was delivered stays") ELSE Keep
                                      /\ UNCHANGED <<data, id>>
         [] live /\ Ev.op = "dead" -> UNCHANGED <<data, id, live>>
         \* a round that does not end, or the end of the process
         [] live /\ Ev.op = "hang" -> /\ IF Prop \in {"S03", "S04"} \/ (Prop = "S01" /\ ~Open /\ \A p \in All : \A r \in DOMAIN sc.party[p + 1] : ~sc.party[p + 1][r].dead) THEN Reject("all rounds end") ELSE live' = FALSE
                                      /\ UNCHANGED <<data, id>>
         [] OTHER -> Reject("no such step") /\ UNCHANGED <<data, id>>
Spec == Init /\ [][Next]_vars
=============================================================================
