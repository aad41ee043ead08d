-------------------------------- MODULE MCQueue --------------------------------
(* Presignatures and attempts to sign, in any order, failing at some or all.   *)
(* Nothing is used twice by a party, presignatures are used in the order they  *)
(* were made, and parties with the same history use the same ones.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Most
Party == 0..N-1
S == INSTANCE Signing WITH SAdd <- LAMBDA a, b : a + b, SMul <- LAMBDA a, b : a * b
VARIABLES queue, used, hist, made
vars == <<queue, used, hist, made>>
Init == queue = [p \in Party |-> << >>] /\ used = [p \in Party |-> << >>] /\ hist = [p \in Party |-> << >>] /\ made = 0
Presign == \E ok \in SUBSET Party :
    /\ queue' = [p \in Party |-> S!Presigned(queue[p], made + 1, p \in ok)]
    /\ hist' = [p \in Party |-> Append(hist[p], IF p \in ok THEN "made" ELSE "failed")]
    /\ made' = made + 1 /\ UNCHANGED used
Sign == \E who \in SUBSET Party \ {{}} :
    /\ queue' = [p \in Party |-> IF p \in who THEN S!Taken(queue[p]) ELSE queue[p]]
    /\ used' = [p \in Party |-> IF p \in who /\ queue[p] # << >> THEN Append(used[p], Head(queue[p])) ELSE used[p]]
    /\ hist' = [p \in Party |-> Append(hist[p], IF p \in who THEN "sign" ELSE "none")]
    /\ UNCHANGED made
Next == Presign \/ Sign
Spec == Init /\ [][Next]_vars
Bound == Len(hist[0]) < Most
Rising == \A p \in Party : \A j, k \in DOMAIN used[p] : j < k => used[p][j] < used[p][k]
Unused == \A p \in Party : \A j \in DOMAIN used[p] : \A k \in DOMAIN queue[p] : used[p][j] < queue[p][k]
Alike == \A p, q \in Party : hist[p] = hist[q] => queue[p] = queue[q] /\ used[p] = used[q]
=============================================================================
