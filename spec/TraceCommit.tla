----------------------------- MODULE TraceCommit ------------------------------
(* Is a recorded execution of the commitment package a behaviour of           *)
(* Commitments? As TraceCurve, with PROP one of C05, C04.                     *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Regs == 1..4
VARIABLES reg, saved, memo, i, id, live, h, shared
vars == <<reg, saved, memo, i, id, live, h, shared>>
rest == <<saved, id, h, shared>>
M == INSTANCE Commitments WITH SRed <- LAMBDA a : ZMod(a, Order), SZero <- "0"
Init == M!Init /\ saved = reg /\ memo = << >> /\ i = 1 /\ id = 0 /\ live = FALSE /\ h = Inf /\ shared = << >>
Ev == Trace[i]
Steps == {"create", "neutral", "compose", "exp", "inv", "trip", "into"}
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want]))

\* what the outside sees of a commitment
Enc(c) == <<Scale(c[2], Generator), PAdd(Scale(c[1], Generator), Scale(c[2], h))>>

(* C05 *)
Expected == LET res == M!Result(reg, Ev)
            IN  [val |-> res, enc |-> Enc(res), eqs |-> {Ev.d} \cup {r \in Regs : reg[r] = res /\ r # Ev.d}, isn |-> (res = M!Neutral)]
Right(want) == Ev.panic = "" /\ Ev.enc = want.enc /\ Ev.ret = want.enc /\ ToSet(Ev.eqs) = want.eqs /\ Ev.isn = want.isn
Codec(want) == Ev.op \in {"trip", "into"} /\ (Ev.panic # "" \/ Ev.enc # want.enc)

(* C04 *)
Opnd(f) == IF f \in DOMAIN Ev THEN reg[Ev[f]] ELSE << >>
Text(f) == IF f \in DOMAIN Ev THEN Ev[f] ELSE ""
Key == <<Ev.op, Opnd("a"), Opnd("b"), Text("k"), Text("v"), Text("r")>>
Outcome == <<Ev.panic, Ev.enc, Ev.isn>>
Untouched == /\ Ev.panic = "" => Ev.chg = << >> /\ Ev.schg = << >> /\ Ev.shared = shared /\ Ev.ret = Ev.enc
             /\ Key \in DOMAIN memo => memo[Key] = Outcome

Judge ==
    CASE Prop = "C05" -> LET want == Expected
                         IN  /\ IF Codec(want) THEN live' = FALSE
                                ELSE IF Right(want) THEN UNCHANGED live
                                ELSE Reject(want) /\ live' = FALSE
                             /\ reg' = [reg EXCEPT ![Ev.d] = want.val] /\ UNCHANGED memo
      [] Prop = "C04" -> /\ IF Untouched THEN live' = (Ev.panic = "")
                            ELSE Reject([shared |-> shared, memo |-> IF Key \in DOMAIN memo THEN memo[Key] ELSE << >>]) /\ live' = FALSE
                         /\ reg' = [reg EXCEPT ![Ev.d] = Ev.enc] /\ memo' = (Key :> Outcome) @@ memo
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> /\ reg' = [r \in Regs |-> IF Prop = "C04" THEN <<Inf, Inf>> ELSE M!Neutral] /\ memo' = << >> /\ live' = TRUE
                               /\ id' = Ev.id /\ h' = Ev.base /\ shared' = Ev.shared /\ UNCHANGED saved
         [] Ev.op = "end" -> UNCHANGED <<reg, memo, live, rest>>
         [] ~live -> UNCHANGED <<reg, memo, live, rest>>
         [] live /\ Ev.op = "save" -> saved' = reg /\ live' = (Prop = "C04") /\ UNCHANGED <<reg, memo, id, h, shared>>
         [] live /\ Ev.op = "restore" -> reg' = saved /\ UNCHANGED <<memo, live, rest>>
         [] live /\ Ev.op \in Steps -> Judge /\ UNCHANGED rest
         [] OTHER -> Reject("no such step") /\ live' = FALSE /\ UNCHANGED <<reg, memo, rest>>
Spec == Init /\ [][Next]_vars
=============================================================================
