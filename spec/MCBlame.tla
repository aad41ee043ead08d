-------------------------------- MODULE MCBlame --------------------------------
EXTENDS Blame, TLC
CONSTANTS Party, R
VARIABLES bad, r, s
mvars == <<bad, r, s>>
Init == /\ bad \in SUBSET {<<k, p, q>> \in (1..R) \X Party \X Party : p # q}
        /\ r = 0 /\ s = Start(Party)
Next == r < R /\ r' = r + 1 /\ s' = Round(s, Party, bad, r + 1) /\ UNCHANGED bad
Spec == Init /\ [][Next]_mvars
Guilty == {t[2] : t \in bad}
\* nobody who got something unusable goes on, and the first one that sent it is named
Noticed == \A p \in Party : \A t \in bad : t[3] = p /\ t[1] <= r => s.stopped[p] # 0 /\ (s.stopped[p] = t[1] => t[2] \in s.blame[p])
\* nobody is named without reason: it sent something unusable in that round, or had stopped itself before
Founded == \A p \in Party : \A q \in s.blame[p] : <<s.stopped[p], q, p>> \in bad \/ (s.stopped[q] # 0 /\ s.stopped[q] < s.stopped[p])
\* who stops first names guilty parties only
First == \A p \in Party : s.stopped[p] # 0 /\ (\A q \in Party : s.stopped[q] = 0 \/ s.stopped[q] >= s.stopped[p]) => s.blame[p] \subseteq Guilty
\* one stops: one round later all have
Together == \A p, q \in Party : s.stopped[p] # 0 /\ r > s.stopped[p] => s.stopped[q] # 0 /\ s.stopped[q] <= s.stopped[p] + 1
Quiet == bad = {} => \A p \in Party : s.stopped[p] = 0
Same == s = After(Party, bad, r)
=============================================================================
