------------------------------- MODULE MCDealing -------------------------------
(* The resharing with one cheating dealer (party 0), who sends to every party  *)
(* what it likes, round by round. The receivers check the contents of the      *)
(* messages as the code does. A party that finds something wrong ends with an  *)
(* error and sends nothing any more.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Tags
D == INSTANCE Dealing
Party == 0..N-1
Honest == Party \ {0}
Exec == {"own", "twin", "other"}
\* contents: what an execution of the dealer computes. The secret of other is another one; all randomness differs.
Secret(e) == IF e = "other" THEN 2 ELSE 1
Index(e) == CASE e = "own" -> 1 [] e = "twin" -> 2 [] e = "other" -> 3 [] OTHER -> 4
Opening(e) == [secret |-> Secret(e), coefs |-> Index(e)]
Msg(e, r) == IF e = "gone" THEN [nothing |-> TRUE] ELSE IF e \notin Exec THEN [junk |-> TRUE]
             ELSE CASE r = 1 -> [knows |-> Secret(e)]
                    [] r = 2 -> [fixes |-> Opening(e)]
                    [] r = 3 -> [opens |-> Opening(e)]
                    [] r = 4 -> [evaluates |-> Index(e)]
                    [] r = 5 -> [value |-> Index(e)]
                    [] r = 6 -> [share |-> Index(e)]
\* the check of the code, from what it got in the rounds before
Passes(got, r) ==
    LET m == got[r]
    IN CASE r = 1 -> "knows" \in DOMAIN m /\ m.knows = 1
         [] r = 2 -> "nothing" \notin DOMAIN m
         [] r = 3 -> "opens" \in DOMAIN m /\ m.opens.secret = 1 /\ "fixes" \in DOMAIN got[2] /\ got[2].fixes = m.opens
         [] r = 4 -> "evaluates" \in DOMAIN m /\ m.evaluates = got[3].opens.coefs
         [] r = 5 -> "value" \in DOMAIN m /\ m.value = got[4].evaluates
         [] r = 6 -> "share" \in DOMAIN m /\ m.share = got[4].evaluates
VARIABLES round, tags, got, state, blames
vars == <<round, tags, got, state, blames>>
Init == round = 1 /\ tags = [p \in Honest |-> << >>] /\ got = [p \in Honest |-> << >>] /\ state = [p \in Honest |-> "runs"] /\ blames = [p \in Honest |-> {}]
Runs == {p \in Honest : state[p] = "runs"}
Exchange ==
    /\ round <= 6 /\ Runs # {}
    /\ \E t \in [Honest -> Tags] :
         LET tg == [p \in Honest |-> IF p \in Runs THEN Append(tags[p], t[p]) ELSE tags[p]]
             g == [p \in Honest |-> IF p \in Runs THEN Append(got[p], Msg(t[p], round)) ELSE got[p]]
             bl(p) == (IF Passes(g[p], round) THEN {} ELSE {0}) \cup (Honest \ Runs)
         IN /\ \A p \in Honest \ Runs : t[p] = "own"
            /\ tags' = tg /\ got' = g
            /\ blames' = [p \in Honest |-> IF p \in Runs THEN bl(p) ELSE blames[p]]
            /\ state' = [p \in Honest |-> IF p \in Runs THEN (IF bl(p) # {} THEN "failed" ELSE IF round = 6 THEN "done" ELSE "runs") ELSE state[p]]
    /\ round' = round + 1
Spec == Init /\ [][Exchange]_vars
Pad(s) == [r \in 1..6 |-> IF r <= Len(s) THEN s[r] ELSE IF Len(s) >= 3 THEN s[3] ELSE IF Len(s) = 2 THEN s[2] ELSE "own"]
\* the contents and the tags tell the same
Same == \A p \in Honest : LET m == Pad(tags[p])
                          IN 0 \in blames[p] => D!Noticed(m) = Len(tags[p]) /\ state[p] = "failed"
\* who has received a deviation has failed and names the dealer
Caught == \A p \in Honest : LET m == Pad(tags[p])
                            IN D!Noticed(m) # 0 /\ D!Noticed(m) <= Len(tags[p]) => state[p] = "failed" /\ 0 \in blames[p]
\* who finishes has seen an honest dealer
Done == \A p \in Honest : state[p] = "done" => D!Noticed(tags[p]) = 0
=============================================================================
