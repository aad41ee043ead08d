----------------------------- MODULE CommitReveal ------------------------------
(* Publishing values by committing first and revealing then, in two rounds in  *)
(* which messages arrive one by one, with parties that cheat: they see what    *)
(* others send before they send, and may tell everybody something else.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Honest, Cheats, Values, Sum(_)     \* Sum of a function from parties to values
None == 99
Party == Honest \cup Cheats
VARIABLES value,     \* of the honest
          phase,     \* "commit", "reveal", "done", "failed"
          com, rev,  \* [p][q]: what q sent to p, or None
          blames,
          early      \* pairs <<p, q>>: q committed to p when p had revealed already
vars == <<value, phase, com, rev, blames, early>>
Init == /\ value \in [Honest -> Values] /\ phase = [p \in Honest |-> "commit"]
        /\ com = [p \in Honest |-> [q \in Party |-> IF q = p THEN value[p] ELSE None]]
        /\ rev = [p \in Honest |-> [q \in Party |-> IF q = p THEN value[p] ELSE None]]
        /\ blames = [p \in Honest |-> {}] /\ early = {}
Revealed(p) == phase[p] \in {"reveal", "done"} \/ (phase[p] = "failed" /\ \A q \in Party : com[p][q] # None)
Commit(p, q, v) == /\ com[p][q] = None /\ phase[p] = "commit"
                   /\ com' = [com EXCEPT ![p][q] = v]
                   /\ early' = IF Revealed(p) THEN early \cup {<<p, q>>} ELSE early
                   /\ UNCHANGED <<value, phase, rev, blames>>
Reveal(p, q, v) == /\ rev[p][q] = None /\ phase[p] = "reveal"
                   /\ rev' = [rev EXCEPT ![p][q] = v]
                   /\ UNCHANGED <<value, phase, com, blames, early>>
HonestCommits == \E p, q \in Honest : Commit(p, q, value[q])
HonestReveals == \E p, q \in Honest : phase[q] \in {"reveal", "done", "failed"} /\ Revealed(q) /\ Reveal(p, q, value[q])
CheatCommits == \E p \in Honest, q \in Cheats, v \in Values : Commit(p, q, v)
CheatReveals == \E p \in Honest, q \in Cheats, v \in Values : Reveal(p, q, v)
\* the round ends: with all messages, or without those that will not come
EndCommit(p) == /\ phase[p] = "commit"
                /\ \A q \in Honest : com[p][q] # None
                /\ LET late == {q \in Party : com[p][q] = None}
                   IN /\ phase' = [phase EXCEPT ![p] = IF late = {} THEN "reveal" ELSE "failed"]
                      /\ blames' = [blames EXCEPT ![p] = late]
                /\ UNCHANGED <<value, com, rev, early>>
Gone(q) == IF q \in Cheats THEN TRUE ELSE phase[q] = "failed" /\ ~Revealed(q)
EndReveal(p) == /\ phase[p] = "reveal"
                /\ \A q \in Party : rev[p][q] # None \/ Gone(q)
                /\ LET bad == {q \in Party : rev[p][q] = None \/ rev[p][q] # com[p][q]}
                   IN /\ phase' = [phase EXCEPT ![p] = IF bad = {} THEN "done" ELSE "failed"]
                      /\ blames' = [blames EXCEPT ![p] = bad]
                /\ UNCHANGED <<value, com, rev, early>>
Next == HonestCommits \/ HonestReveals \/ CheatCommits \/ CheatReveals \/ (\E p \in Honest : EndCommit(p) \/ EndReveal(p))
Spec == Init /\ [][Next]_vars
Result(p) == Sum(rev[p])
\* what a party uses of others was fixed before it revealed its own
Fixed == early = {} /\ \A p \in Honest : Revealed(p) => \A q \in Party : com[p][q] # None
Opened == \A p \in Honest : phase[p] = "done" => rev[p] = com[p]
Named == \A p \in Honest : /\ phase[p] = "failed" => blames[p] # {}
                           /\ phase[p] \in {"done", "failed"} => \A q \in Party : (rev[p][q] # None /\ rev[p][q] # com[p][q]) => q \in blames[p]
\* without cheating all get the sum
Agree == Cheats = {} => \A p \in Honest : phase[p] = "done" => Result(p) = Sum(value)
HonestBlame == \A p \in Honest : \A q \in blames[p] \cap Honest : phase[q] = "failed"
=============================================================================
