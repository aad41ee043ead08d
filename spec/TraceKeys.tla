-------------------------------- MODULE TraceKeys ------------------------------
(* Recorded runs of the generator of keys and of signers, judged against Keys. *)
EXTENDS BigZ, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES made,         \* the keys that were generated
          addrs,        \* the addresses of the committee; << >> if it is not known yet
          pubs,         \* the public keys of the committee
          seen,         \* private keys that members have
          i, id, live
vars == <<made, addrs, pubs, seen, i, id, live>>
RECURSIVE Value(_)
Value(s) == IF s = << >> THEN "0" ELSE ZAdd(ZMul(Value(SubSeq(s, 1, Len(s) - 1)), "100"), ZInt(s[Len(s)]))
K == INSTANCE Keys WITH Base <- 256, Num <- Value, Nil <- "0"
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want]))
Calm == ~Ev.crashed /\ ~Ev.hung
Refused == Calm /\ Ev.said

(* Generation *)
Possible == Ev.n >= 2 /\ (Ev.files => Len(Ev.lines) >= Ev.n)
Files(n) == {ToString(p) \o ".pk" : p \in 0..(n - 1)} \cup {"keys_addrs"}
GenOk == IF Possible THEN Calm /\ Files(Ev.n) \subseteq ToSet(Ev.names)
         ELSE Refused /\ "keys_addrs" \notin ToSet(Ev.names)

(* Reading back *)
ReadOk ==
    /\ Calm /\ Ev.net
    /\ Ev.pid < Len(Ev.addrs) /\ Ev.local = Ev.addrs[Ev.pid + 1]
    /\ Len(Ev.addrs) = Len(made)
    \* addresses that the generator chose are different, and have ports
    /\ IF addrs = << >> THEN Cardinality(ToSet(Ev.addrs)) = Len(made) /\ \A k \in DOMAIN Ev.ports : Ev.ports[k] \in 1..65535 ELSE Ev.addrs = addrs
    /\ Ev.hook => /\ Ev.member.ok /\ Ev.committee.ok
                  /\ Ev.member.ints = <<Ev.pid>> /\ Ev.committee.texts = Ev.addrs
                  /\ Ev.member.numbers \in ToSet(made) \ seen
                  /\ Ev.committee.numbers[Ev.pid + 1] = Ev.member.numbers[1]
                  /\ IF pubs = << >> THEN Len(Ev.committee.numbers) = Len(made) /\ ToSet(Ev.committee.numbers) = {made[k][1] : k \in DOMAIN made}
                     ELSE Ev.committee.numbers = pubs

(* Reading anything *)
Bytes(h) == [k \in 1..(Len(h) \div 2) |-> ZNat(SubSeq(h, (2 * k) - 1, 2 * k))]
Private == IF Ev.pk.absent \/ Ev.pk.empty \/ Ev.pk.raw # "" THEN K!Fail ELSE K!Decode(Bytes(Ev.pk.blob))
NoNumber == -1000
Member == [ok |-> Private.ok /\ Ev.pk.pidn # NoNumber, key |-> Private.v, pid |-> Ev.pk.pidn]
Committee == IF Ev.nocom THEN << >> ELSE [k \in DOMAIN Ev.com |-> [ok |-> Ev.com[k].raw = "", key |-> Ev.com[k].key, addr |-> Ev.com[k].addr]]
Addresses == [k \in DOMAIN Committee |-> Committee[k].addr]
Accept == K!Usable(Member, Committee)
RefuseOk ==
    IF Accept
    THEN /\ Calm /\ Ev.net /\ Ev.addrs = Addresses /\ Ev.local = Addresses[Member.pid + 1]
         /\ Ev.hook => /\ Ev.member.ok /\ Ev.member.numbers = Member.key /\ Ev.member.ints = <<Member.pid>>
                       /\ Ev.committee.ok /\ Ev.committee.texts = Addresses /\ Ev.committee.numbers = [k \in DOMAIN Committee |-> ZMod(Committee[k].key, "1" \o ZHex("0", Len(Committee[k].key)))]
    ELSE Refused /\ ~Ev.net /\ (Ev.hook => Ev.member.panic = "" /\ Ev.committee.panic = "")

(* Running the protocol *)
Sensible == Ev.t \in 1..Ev.n /\ Ev.sigs >= 1
RunOk == /\ Ev.gen /\ Len(Ev.res) = Ev.n
         /\ \A p \in 1..Ev.n : LET x == Ev.res[p] IN
               /\ ~x.crashed /\ ~x.hung /\ x.said
               /\ IF Sensible THEN x.code = 0 /\ x.done /\ x.errors = 0 /\ x.presigned = Ev.sigs /\ x.signed = Ev.sigs
                  ELSE ~x.done /\ x.signed = 0

Judge == CASE Ev.op = "gen" -> Prop = "K01" => GenOk
           [] Ev.op = "read" -> Prop = "K01" => ReadOk
           [] Ev.op = "refuse" -> Prop = "K02" => RefuseOk
           [] Ev.op = "run" -> Prop = "K02" => RunOk
Want == CASE Ev.op = "gen" -> [possible |-> Possible]
          [] Ev.op = "read" -> [made |-> made, addrs |-> addrs]
          [] Ev.op = "refuse" -> [accept |-> Accept]
          [] Ev.op = "run" -> [sensible |-> Sensible]
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> id' = Ev.id /\ live' = TRUE /\ made' = << >> /\ addrs' = << >> /\ pubs' = << >> /\ seen' = {}
         [] Ev.op = "end" \/ ~live -> UNCHANGED <<made, addrs, pubs, seen, id, live>>
         [] Ev.op \notin {"gen", "read", "refuse", "run"} -> Reject("no such step") /\ live' = FALSE /\ UNCHANGED <<made, addrs, pubs, seen, id>>
         [] OTHER -> IF ~Judge THEN Reject(Want) /\ live' = FALSE /\ UNCHANGED <<made, addrs, pubs, seen, id>>
                     ELSE CASE Ev.op = "gen" -> /\ made' = Ev.made /\ live' = Possible
                                                /\ addrs' = IF Possible /\ Ev.files THEN SubSeq(Ev.lines, 1, Ev.n) ELSE << >>
                                                /\ UNCHANGED <<pubs, seen, id>>
                            [] Ev.op = "read" -> /\ addrs' = Ev.addrs
                                                 /\ pubs' = IF Ev.hook THEN Ev.committee.numbers ELSE pubs
                                                 /\ seen' = IF Ev.hook THEN seen \cup {Ev.member.numbers} ELSE seen
                                                 /\ UNCHANGED <<made, id, live>>
                            [] OTHER -> UNCHANGED <<made, addrs, pubs, seen, id, live>>
Init == made = << >> /\ addrs = << >> /\ pubs = << >> /\ seen = {} /\ i = 1 /\ id = 0 /\ live = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
