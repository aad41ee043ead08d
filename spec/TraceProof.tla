----------------------------- MODULE TraceProof -------------------------------
(* Are the verdicts of the zkpok package those of Proofs? PROP selects:       *)
(*  Z01  honest proofs are made and accepted;                                 *)
(*  Z02, Z03  nothing else is accepted, and the challenge depends on all of   *)
(*       the statement and the first message;                                 *)
(*  Z04  what blinds the responses is fresh, of full width, and used once;    *)
(*  C04  nothing that existed changes, and a verdict depends on the values    *)
(*       only.                                                                *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
P == INSTANCE Proofs WITH SZero <- "0"
Red(a) == ZMod(a, Order)
VARIABLES comm, bases, made, memo, saved,
          blinds,          \* what blinded the proofs so far: points, and their logarithms
          i, id, live
vars == <<comm, bases, made, memo, saved, blinds, i, id, live>>
Regs == 1..20
None == <<"0", "0">>
Init == comm = [c \in Regs |-> None] /\ bases = << >> /\ made = {} /\ memo = << >> /\ saved = << >> /\ blinds = [pts |-> {}, logs |-> << >>, second |-> << >>, refresh |-> << >>, bins |-> [k \in 1..3 |-> <<0, 0, 0, 0>>]] /\ i = 1 /\ id = 0 /\ live = FALSE
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want])) /\ live' = FALSE
Keep == UNCHANGED live

H == ZMod(bases[Ev.f], Order)
Stmt == IF "c2" \in DOMAIN Ev THEN <<comm[Ev.c], comm[Ev.c2]>> ELSE <<comm[Ev.c]>>
Unknown(stmt) == \E k \in DOMAIN stmt : stmt[k][1] = "?"
Tuple(pt) == <<Red(pt.z1), Red(pt.z2), pt.x1, pt.x2>>
Key == <<Ev.kind, H, Stmt, Tuple(Ev.parts)>>

\* the value of a commitment after a step
Made ==
    CASE Ev.op = "comm"    -> P!Comm(Red(bases[Ev.f]), Red(Ev.v), Red(Ev.r))
      [] Ev.op = "pair"    -> <<Red(Ev.a), Red(Ev.b)>>
      [] Ev.op = "compose" -> P!PairAdd(comm[Ev.c], comm[Ev.c2])
      [] Ev.op = "exp"     -> P!PairMul(Ev.k, comm[Ev.c])
      [] Ev.op = "inv"     -> P!PairNeg(comm[Ev.c])
      [] Ev.op = "tripc"   -> comm[Ev.c]
\* for a statement that says nothing (delta is zero) transcripts exist that need no witness
Trivial == /\ ~Unknown(Stmt) /\ P!Delta(Stmt) = None
           /\ Ev.parts.x1 = Scale(Ev.parts.z1, Generator)
           /\ Ev.parts.x2 = PAdd(Scale(Ev.parts.z2, Generator), Scale(SMul(H, Ev.parts.z1), Generator))

Prove ==
    LET w == <<IF Ev.kind = "know" THEN Red(Ev.v) ELSE "0", Red(Ev.r)>>
        honest == P!Witness(H, Stmt, w)
        done == Ev.panic = "" /\ Ev.err = ""
    IN /\ IF Prop = "Z01" /\ honest /\ ~done THEN Reject("an honest proof") ELSE Keep
       /\ made' = IF done /\ honest THEN made \cup {Key} ELSE made
Verify ==
    IF ~Ev.made THEN Keep
    ELSE IF Prop = "Z01" THEN IF "parts" \in DOMAIN Ev /\ Key \in made /\ (Ev.panic # "" \/ ~Ev.ok) THEN Reject("accepted") ELSE Keep
    ELSE IF Prop \in {"Z02", "Z03"} THEN IF Ev.panic = "" /\ Ev.ok /\ Key \notin made /\ ~Trivial THEN Reject("rejected") ELSE Keep
    ELSE Keep

(* Challenges: memo is the set of <<statement, first message, challenge>>.    *)
ChalKey == <<Ev.kind, Ev.stmt, Ev.parts.x1, Ev.parts.x2>>
Chal ==
    IF Prop # "Z03" \/ Ev.panic # "" \/ Ev.e = "" THEN Keep /\ UNCHANGED memo
    ELSE IF ChalKey \in DOMAIN memo
         THEN (IF memo[ChalKey] = Ev.e THEN Keep ELSE Reject("the challenge of before")) /\ UNCHANGED memo
         ELSE /\ LET same == {k \in DOMAIN memo : memo[k] = Ev.e}
                 IN IF same = {} THEN Keep ELSE Reject([sameChallenge |-> CHOOSE k \in same : TRUE])
              /\ memo' = (ChalKey :> Ev.e) @@ memo
\* enough bits of the challenge vary
Wide(es) == Cardinality(es) < 20 \/ ZVary(SetToSeq(es)) >= 120
Hash == LET m == {v[1] : v \in ToSet(Ev.vals)}
            e == {v[2] : v \in ToSet(Ev.vals)}
        IN IF Prop # "Z03" THEN Keep
           ELSE IF Ev.panic # "" THEN Reject("a hash")
           ELSE IF Cardinality(m) = Cardinality(e) /\ Wide(e) THEN Keep
           ELSE Reject([different |-> Cardinality(m), hashes |-> Cardinality(e), collision |->
                 CHOOSE v \in ToSet(Ev.vals) : (\E u \in ToSet(Ev.vals) : u[2] = v[2] /\ u[1] # v[1]) \/ ~Wide(e)])

(* C04 *)
Same == LET k == <<Ev.kind, Ev.f, Stmt, Tuple(Ev.parts)>>
        IN IF Ev.panic # "" \/ ~Ev.made THEN Keep /\ UNCHANGED memo
           ELSE IF k \in DOMAIN memo THEN (IF memo[k] = Ev.ok THEN Keep ELSE Reject("the verdict of before")) /\ UNCHANGED memo
           ELSE memo' = (k :> Ev.ok) @@ memo /\ Keep
(* Z04. The logarithms of the two parts of the first message blind the         *)
(* responses; the second part is taken without its share of the other base.    *)
Content == PAdd(Ev.parts.x2, PNeg(Scale(H, Ev.parts.x1)))
NewPts == IF Ev.kind = "know" THEN <<Ev.parts.x1, Content>> ELSE <<Ev.parts.x1>>
NewLogs == IF "blinds" \notin DOMAIN Ev THEN << >> ELSE IF Ev.kind = "know" THEN <<Red(Ev.blinds.z1), Red(Ev.blinds.z2)>> ELSE <<Red(Ev.blinds.z1)>>
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
Last100(s) == IF Len(s) > 100 THEN SubSeq(s, Len(s) - 99, Len(s)) ELSE s
Varied(s) == LET m == Len(s)
             IN \/ m < 2
                \/ Distinct(s) /\ ZVary(s) > (CASE m < 5 -> 40 [] m < 10 -> 200 [] m < 20 -> 230 [] m < 64 -> 250 [] OTHER -> 255)
RefreshLog == IF Ev.kind = "know" THEN << >> ELSE NewLogs
FirstLog == IF NewLogs = << >> \/ Ev.kind # "know" THEN << >> ELSE <<NewLogs[1]>>
SecondLog == IF Len(NewLogs) < 2 THEN << >> ELSE <<NewLogs[2]>>
\* how many numbers are in each quarter of their range: as many, up to seven standard deviations
Quarter(x) == IF ZLess(ZMul("2", x), Order) THEN (IF ZLess(ZMul("4", x), Order) THEN 1 ELSE 2) ELSE IF ZLess(ZMul("4", x), ZMul("3", Order)) THEN 3 ELSE 4
Counted(b, s) == IF s = << >> THEN b ELSE [b EXCEPT ![Quarter(s[1])] = @ + 1]
Even(b) == LET m == b[1] + b[2] + b[3] + b[4] IN m < 60 \/ \A q \in 1..4 : (4 * b[q] - m) * (4 * b[q] - m) <= 147 * m
Blinded == [bins |-> <<Counted(blinds.bins[1], FirstLog), Counted(blinds.bins[2], SecondLog), Counted(blinds.bins[3], RefreshLog)>>, pts |-> blinds.pts \cup ToSet(NewPts), logs |-> Last100(blinds.logs \o FirstLog), second |-> Last100(blinds.second \o SecondLog), refresh |-> Last100(blinds.refresh \o RefreshLog)]
Blind == IF Prop # "Z04" THEN Keep /\ UNCHANGED blinds
         ELSE LET secrets == {Red(Ev.v), Red(Ev.r), "0", "1", SNeg("1")}
                  ok == /\ Ev.panic = "" /\ Ev.err = ""
                        /\ Distinct(NewPts) /\ ToSet(NewPts) \cap (blinds.pts \cup {Inf, Generator, PNeg(Generator), Scale(H, Generator)}) = {}
                        /\ (Ev.kind = "refresh" => Content = Inf)
                        /\ ZLess(Ev.parts.z1, Order) /\ (Ev.kind = "know" => ZLess(Ev.parts.z2, Order))
                        /\ \A k \in DOMAIN NewLogs : Scale(NewLogs[k], Generator) = NewPts[k] /\ NewLogs[k] \notin secrets
                        /\ Varied(Blinded.logs) /\ Varied(Blinded.second) /\ Varied(Blinded.refresh) /\ (\A k \in 1..3 : Even(Blinded.bins[k])) /\ Distinct(Blinded.logs \o Blinded.second \o Blinded.refresh)
              IN IF ok THEN Keep /\ blinds' = Blinded ELSE Reject([points |-> NewPts, logarithms |-> Blinded.logs, second |-> Blinded.second, refresh |-> Blinded.refresh, quarters |-> Blinded.bins]) /\ UNCHANGED blinds

Untouched == Prop = "C04" => Ev.chg = << >>

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> /\ comm' = [c \in Regs |-> None] /\ bases' = Ev.bases /\ made' = {} /\ memo' = << >> /\ id' = Ev.id /\ live' = TRUE /\ UNCHANGED <<saved, blinds>>
         [] Ev.op = "end" -> UNCHANGED <<comm, bases, made, memo, saved, blinds, id, live>>
         [] ~live -> UNCHANGED <<comm, bases, made, memo, saved, blinds, id, live>>
         [] live /\ Ev.op = "save" -> saved' = <<comm, made>> /\ UNCHANGED <<comm, bases, made, memo, blinds, id, live>>
         [] live /\ Ev.op = "restore" -> comm' = saved[1] /\ made' = saved[2] /\ UNCHANGED <<bases, memo, saved, blinds, id, live>>
         [] live /\ Ev.op \in {"comm", "pair", "compose", "exp", "inv", "tripc", "prove", "splice", "lin", "forge", "verify", "chal", "hash", "blind"} ->
              /\ UNCHANGED <<bases, saved, id>>
              /\ IF Ev.op = "blind" /\ Untouched THEN TRUE ELSE UNCHANGED blinds
              /\ IF ~Untouched THEN Reject("no change") /\ UNCHANGED <<comm, made, memo>>
                 ELSE IF Ev.panic # "" /\ Ev.op \notin {"prove", "verify", "hash", "blind"} THEN live' = FALSE /\ UNCHANGED <<comm, made, memo>>
                 ELSE CASE Ev.op \in {"comm", "pair", "compose", "exp", "inv", "tripc"} -> comm' = [comm EXCEPT ![Ev.d] = Made] /\ Keep /\ UNCHANGED <<made, memo>>
                        [] Ev.op = "prove" -> Prove /\ UNCHANGED <<comm, memo>>
                        [] Ev.op = "verify" -> UNCHANGED <<comm, made>> /\ IF Prop = "C04" THEN Same ELSE Verify /\ UNCHANGED memo
                        [] Ev.op = "forge" -> comm' = [comm EXCEPT ![Ev.d] = <<"?", "?">>] /\ live' = Ev.weak /\ UNCHANGED <<made, memo>>
                        [] Ev.op = "chal" -> Chal /\ UNCHANGED <<comm, made>>
                        [] Ev.op = "blind" -> Blind /\ UNCHANGED <<comm, made, memo>>
                        [] Ev.op = "hash" -> Hash /\ UNCHANGED <<comm, made, memo>>
                        [] OTHER -> Keep /\ UNCHANGED <<comm, made, memo>>
         [] OTHER -> Reject("no such step") /\ UNCHANGED <<comm, bases, made, memo, saved, blinds, id>>
Spec == Init /\ [][Next]_vars
=============================================================================
