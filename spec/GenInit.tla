-------------------------------- MODULE GenInit --------------------------------
(* Initialisation with ordinary and special shares, and presigning after it.   *)
EXTENDS SignBase
\* the shares of the second key are the second draws of initialisation
Keys(n, f(_), g(_)) == Draws(n, LAMBDA q : <<f(q), g(q)>>)
I(n, t, f(_), g(_)) == Scen(n, <<With(Init, Keys(n, f, g)), Presign(t), Presign(1)>>)
ASSUME \A n \in 2..5 : \A t \in {1, 2, n} : PrintT(ToJson(Scen(n, <<Init, Presign(t)>>)))
ASSUME \A n \in {2, 3, 4} : \A t \in {1, 2} :
    /\ PrintT(ToJson(I(n, t, LAMBDA q : ZInt(q), LAMBDA q : At(Str(q)))))
    /\ PrintT(ToJson(I(n, t, LAMBDA q : At("s"), LAMBDA q : ZInt(q + 7))))
    /\ PrintT(ToJson(I(n, t, LAMBDA q : IF q = 0 THEN M1 ELSE "0", LAMBDA q : IF q = 0 THEN At("z") ELSE "0")))
    /\ PrintT(ToJson(I(n, t, LAMBDA q : At(Str(q)), LAMBDA q : SNeg(At(Str(q))))))
    /\ PrintT(ToJson(I(n, t, LAMBDA q : At(Str(q)), LAMBDA q : IF q = 0 THEN SSub("1", SMul(ZInt(n - 1), At("w"))) ELSE At("w"))))
ASSUME \A n \in {2, 3} : \A k \in 1..6 : PrintT(ToJson(Scen(n, <<With(Init, Draws(n, LAMBDA q : <<At(Str(q) \o Str(k))>>)), Presign(2)>>)))
\* alone
ASSUME \A k \in 1..2 : PrintT(ToJson(Scen(1, <<Init, Presign(1)>>)))
ASSUME PrintT(ToJson(I(1, 1, LAMBDA q : "5", LAMBDA q : At("a"))))
\* many parties
ASSUME \A n \in {7, 10} : PrintT(ToJson(Scen(n, <<Init, Presign(2)>>)))
=============================================================================
