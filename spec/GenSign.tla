-------------------------------- MODULE GenSign --------------------------------
(* Signatures: all committees and thresholds, messages of all sizes, special   *)
(* secrets, and parties that fall silent while signing.                        *)
EXTENDS SignBase
Msg(k) == Messages[(k % Len(Messages)) + 1]
\* secrets k, rho, eta, tau as sums of the parties' draws: party 0 takes the rest
Special(n, xs) == Draws(n, LAMBDA q : Flat([i \in 1..4 |-> <<IF q = 0 THEN SSub(xs[i], SMul(ZInt(n - 1), At(Str(i)))) ELSE At(Str(i)), "">>]))
Plain(n, t, k) == Scen(n, <<Init, Presign(t), Sign(Msg(k)), Presign(t), Presign(n), Sign(Msg(k + 3)), Sign(Msg(k + 5))>>)
ASSUME \A n \in 2..5 : \A t \in 1..n : PrintT(ToJson(Plain(n, t, n + 3 * t + ZNat(ZAtom(Seed \o "p", "b")))))
ASSUME \A k \in 1..11 : PrintT(ToJson(Scen(2, <<Init, Presign(1 + (k % 2)), Sign(Msg(k))>>)))
Specials == {<<"0", At("b"), At("c"), At("d")>>, <<At("a"), "0", At("c"), At("d")>>, <<At("a"), At("b"), "0", At("d")>>, <<At("a"), At("b"), At("c"), "0">>,
             <<"1", "0", "0", "1">>, <<At("a"), M1, M1, M1>>, <<At("a"), At("b"), At("c"), "1">>, <<At("a"), At("a"), At("a"), At("a")>>}
ASSUME \A n \in {2, 3} : \A xs \in Specials : \A m \in {"0", At("m")} : PrintT(ToJson(Scen(n, <<Init, With(Presign(2), Special(n, xs)), Sign(m)>>)))
\* silence from an exchange on: a set of parties
Quiet(n, t, r, Q) == Scen(n, <<Init, Presign(t), Presign(t), Net(Sign(At("q")), Silent(r, Q)), Sign(At("s"))>>)
ASSUME \A r \in 1..3 : \A c \in {<<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>} : \A Q \in SUBSET (0..(c[1]-1)) : Q # {} => PrintT(ToJson(Quiet(c[1], c[2], r, Q)))
ASSUME \A r \in 1..3 : \A c \in {<<4, 2>>, <<4, 3>>, <<5, 3>>} : \A k \in 0..(c[1]-1) : \A j \in 1..3 : PrintT(ToJson(Quiet(c[1], c[2], r, {(k + i) % c[1] : i \in 0..(j-1)})))
\* single messages that are lost, at different parties in different exchanges
Lossy(n, t, k) == LET x(s, m) == ZNat(ZAtom(Seed \o Str(n) \o Str(k) \o s, ZInt(m)))
                  IN Scen(n, <<Init, Presign(t), Net(Sign(At("w")), [j \in 1..(2 + x("c", 5)) |-> LET f == x("f" \o Str(j), n) IN Drop(1 + x("r" \o Str(j), 3), f, (f + 1 + x("t" \o Str(j), n - 1)) % n)])>>)
ASSUME \A n \in 3..5 : \A t \in 2..n : \A k \in 1..5 : PrintT(ToJson(Lossy(n, t, k)))
\* many parties
ASSUME \A c \in {<<7, 4>>, <<9, 9>>} : PrintT(ToJson(Plain(c[1], c[2], 2))) /\ PrintT(ToJson(Quiet(c[1], c[2], 2, {1, 3})))
=============================================================================
