--------------------------------- MODULE MCKeys --------------------------------
(* Key files over a small alphabet: what was written is read back, a file with *)
(* digits missing or added is refused; and a committee whose members' files    *)
(* are written by the generator, damaged on the way, and read by the signers.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Base == 3
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0 ELSE (Number(SubSeq(s, 1, Len(s) - 1)) * Base) + s[Len(s)]
K == INSTANCE Keys WITH Num <- Number, Nil <- 0
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN << >> ELSE Append(Digits(n \div Base), n % Base)
Enc(k) == K!Encode([x \in 1..3 |-> Digits(k[x])])
Numbers == {1, 2, 3, 8, 9, 26, 100}
PrivKeys == [1..3 -> Numbers]
Strings(n) == UNION {[1..k -> 0..(Base-1)] : k \in 0..n}
ASSUME RoundTrip == \A k \in PrivKeys : K!Decode(Enc(k)) = [ok |-> TRUE, v |-> k]
ASSUME Strict == \A k \in PrivKeys : \A m \in 0..(Len(Enc(k)) - 1) : ~K!Decode(SubSeq(Enc(k), 1, m)).ok
ASSUME Exact == \A k \in PrivKeys : \A s \in Strings(2) \ {<< >>} : ~K!Decode(Enc(k) \o s).ok
ASSUME Total == \A s \in Strings(9) : LET d == K!Decode(s) IN d.ok => Len(d.v) = 3 /\ \A x \in 1..3 : d.v[x] > 0
\* nothing but an encoding of a key, digits with leading zeros aside, is accepted
ASSUME OnlyKeys == \A s \in Strings(9) : LET d == K!Decode(s) IN d.ok => Len(s) >= Len(Enc(d.v))

(* Generation and reading. A file is damaged by losing its end.                *)
Parties == 0..2
VARIABLES keys, files, com, state
vars == <<keys, files, com, state>>
Few == <<<<8, 1, 3>>, <<8, 2, 9>>, <<26, 1, 1>>, <<9, 3, 26>>>>
Init == /\ keys \in {[p \in Parties |-> Few[((p + s) % 4) + 1]] : s \in 0..3}
        /\ files = [p \in Parties |-> [blob |-> Enc(keys[p]), pid |-> p]]
        /\ com = [k \in 1..3 |-> [ok |-> TRUE, key |-> keys[k - 1][1], addr |-> k - 1]]
        /\ state = [p \in Parties |-> [st |-> "new"]]
Damage(p) == /\ files[p].blob # << >> /\ state[p].st = "new"
             /\ files' = [files EXCEPT ![p].blob = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<keys, com, state>>
Lose == /\ com # << >> /\ com' = SubSeq(com, 1, Len(com) - 1) /\ UNCHANGED <<keys, files, state>>
Start(p) == LET d == K!Decode(files[p].blob)
                m == [ok |-> d.ok, key |-> d.v, pid |-> files[p].pid]
            IN /\ state[p].st = "new" /\ UNCHANGED <<keys, files, com>>
               /\ state' = [state EXCEPT ![p] = IF K!Usable(m, com) THEN [st |-> "started", key |-> m.key, local |-> com[m.pid + 1].addr, addrs |-> com] ELSE [st |-> "refused"]]
Next == Lose \/ \E p \in Parties : Damage(p) \/ Start(p)
Spec == Init /\ [][Next]_vars
Started == {p \in Parties : state[p].st = "started"}
\* who has started has its own key, listens where the others look for it, and knows its public key
Intact == \A p \in Started : /\ state[p].key = keys[p] /\ files[p].blob = Enc(keys[p])
                             /\ \A q \in Started : Len(state[q].addrs) > p => state[q].addrs[p + 1].addr = state[p].local /\ state[q].addrs[p + 1].key = state[p].key[1]
\* nobody refuses files that were left alone
Welcome == \A p \in Parties : state[p].st = "refused" => files[p].blob # Enc(keys[p]) \/ Len(com) < 3
=============================================================================
