-------------------------------- MODULE GenRuns --------------------------------
(* Committees that run the protocol to the end, and such that must not.        *)
EXTENDS KeyBase
Run(n, t, sigs) == [kind |-> "run", n |-> n, t |-> t, sigs |-> sigs]
ASSUME \A x \in {<<2, 1, 1>>, <<2, 2, 2>>, <<3, 2, 1>>, <<3, 3, 1>>, <<2, 2, 3>>, <<4, 2, 1>>, <<3, 1, 2>>, <<5, 3, 1>>, <<6, 4, 2>>, <<8, 5, 1>>, <<2, 2, 12>>} \cup
                (IF Tier = "thorough" THEN {<<6, 6, 1>>, <<4, 4, 3>>, <<2, 1, 6>>, <<7, 3, 1>>, <<3, 2, 5>>} ELSE {}) : PrintT(ToJson(Run(x[1], x[2], x[3])))
ASSUME \A t \in {0, -1, 3, 4, 65535, 65536, 65537, 65538, -65535, 131074} : PrintT(ToJson(Run(2, t, 1)))
ASSUME \A s \in {0, -1} : PrintT(ToJson(Run(2, 1, s)))
=============================================================================
