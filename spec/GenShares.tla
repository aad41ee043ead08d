------------------------------- MODULE GenShares -------------------------------
(* Presignatures for all committees and thresholds, several by the same        *)
(* parties, and signatures from them.                                          *)
EXTENDS SignBase
Msg(k) == Messages[(k % Len(Messages)) + 1]
Other(n, t, k) == 1 + ((t + k) % n)
Shares(n, t, k) == Scen(n, <<Init, Presign(t), Presign(Other(n, t, k)), Presign(t), Sign(Msg(k)), Presign(Other(n, t, k + 1)), Sign(Msg(k + 2)), Sign(Msg(k + 4)), Presign(t), Sign(Msg(k + 5)), Sign(Msg(k + 7))>>)
ASSUME \A n \in 2..5 : \A t \in 1..n : PrintT(ToJson(Shares(n, t, n + 2 * t + ZNat(ZAtom(Seed \o "s", "b")))))
\* not all take part, or messages are lost, before the presignatures that are judged
ASSUME \A n \in 3..4 : \A t \in 2..n : \A r \in 1..3 : PrintT(ToJson(Scen(n, <<Init, Presign(t), Net(Sign(At("q")), Silent(r, {n - 1})), Presign(t), Presign(n), Sign(At("s")), Sign(At("u"))>>)))
\* many in store
ASSUME \A n \in 2..3 : PrintT(ToJson(Scen(n, <<Init>> \o [k \in 1..6 |-> Presign(2)] \o [k \in 1..6 |-> Sign(Msg(k))])))
\* many parties
ASSUME \A c \in {<<7, 4>>, <<8, 8>>} : PrintT(ToJson(Shares(c[1], c[2], 1)))
=============================================================================
