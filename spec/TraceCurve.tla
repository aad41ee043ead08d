------------------------------ MODULE TraceCurve ------------------------------
(* Is a recorded execution of the curve package a behaviour of Curve on       *)
(* secp256k1? One state per event of the trace. PROP selects what is judged:  *)
(*  C01  every result is the group element that Curve prescribes, and         *)
(*       comparison tells group elements apart;                               *)
(*  C04  a step is a function of the values of its operands, whatever objects *)
(*       hold them and whoever works with them at the same time, and it       *)
(*       changes nothing but the register it is directed to.                  *)
(* A rejected event is reported, and judging resumes with the next scenario.  *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Regs == 1..4
Loads(e) == <<e.x, e.y>>
VARIABLES reg, saved, memo, i, id, live, shared
vars == <<reg, saved, memo, i, id, live, shared>>
M == INSTANCE Curve WITH GAdd <- PAdd, GNeg <- PNeg, GScale <- Scale, GId <- Inf, GGen <- Generator,
        Loaded <- Loads

Init == M!Init /\ saved = [r \in Regs |-> Inf] /\ memo = << >> /\ i = 1 /\ id = 0 /\ live = FALSE /\ shared = << >>

Ev == Trace[i]
Steps == {"neutral", "gen", "load", "trip", "add", "neg", "scale", "base"}

Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want]))

(* C01 *)
Expected == LET res == M!Result(reg, Ev)
            IN  [pt |-> res, eqs |-> {Ev.d} \cup {r \in Regs : reg[r] = res /\ r # Ev.d}]
GroupStep(want) == Ev.panic = "" /\ Ev.pt = want.pt /\ ToSet(Ev.eqs) = want.eqs
Codec(want) == Ev.op \in {"trip", "load"} /\ (Ev.panic # "" \/ Ev.pt # want.pt)  \* not a matter of C01

(* C04 *)
Opnd(f) == IF f \in DOMAIN Ev THEN reg[Ev[f]] ELSE << >>
Text(f) == IF f \in DOMAIN Ev THEN Ev[f] ELSE ""
Key == <<Ev.op, Opnd("a"), Opnd("b"), Text("k"), Text("x"), Text("y")>>
Outcome == <<Ev.panic, Ev.pt>>
Untouched ==
    /\ Ev.panic = "" => /\ Ev.chg = << >>
                        /\ "k" \in DOMAIN Ev => Ev.kafter = Ev.k
                        /\ Ev.shared = shared
    /\ Key \in DOMAIN memo => memo[Key] = Outcome

Judge ==
    CASE Prop = "C01" -> LET want == Expected
                         IN  /\ IF Codec(want) THEN live' = FALSE
                                ELSE IF GroupStep(want) THEN UNCHANGED live
                                ELSE Reject(want) /\ live' = FALSE
      [] Prop = "C04" -> IF Untouched THEN live' = (Ev.panic = "")
                         ELSE Reject([shared |-> shared, memo |-> IF Key \in DOMAIN memo THEN memo[Key] ELSE << >>]) /\ live' = FALSE
Advance ==
    /\ reg' = [reg EXCEPT ![Ev.d] = Ev.pt]    \* what M!Step says, when the event was accepted
    /\ memo' = IF Prop = "C04" THEN (Key :> Outcome) @@ memo ELSE memo

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> /\ reg' = [r \in Regs |-> Inf] /\ memo' = << >> /\ live' = TRUE
                               /\ id' = Ev.id /\ shared' = Ev.shared /\ UNCHANGED saved
         [] Ev.op = "end" -> UNCHANGED <<reg, saved, memo, id, live, shared>>
         [] ~live -> UNCHANGED <<reg, saved, memo, id, live, shared>>
         [] live /\ Ev.op = "save" -> saved' = reg /\ live' = (Prop = "C04") /\ UNCHANGED <<reg, memo, id, shared>>
         [] live /\ Ev.op = "restore" -> reg' = saved /\ UNCHANGED <<saved, memo, id, live, shared>>
         [] live /\ Ev.op \in Steps -> Judge /\ Advance /\ UNCHANGED <<saved, id, shared>>
         [] OTHER -> Reject("no such step") /\ live' = FALSE /\ UNCHANGED <<reg, saved, memo, id, shared>>
Spec == Init /\ [][Next]_vars
=============================================================================
