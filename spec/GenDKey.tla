-------------------------------- MODULE GenDKey --------------------------------
(* Distributed keys: all kinds of shares; and key generations and checks in    *)
(* which a party does not open what it committed to.                           *)
EXTENDS ArithBase
\* the secret in the key is the one that belongs to the public key
Key(n, kind) == LET xs == Secrets(n, kind) IN
    Scen(n, "1", <<With(DKey("k"), First(n, xs)), CheckDH("k", "1", Sum(xs)), CheckDH("k", At("u"), SMul(At("u"), Sum(xs))), CheckDH("k", "0", "0"), DKey("l"), With(DKey("m"), First(n, xs)), CheckDH("m", M1, SNeg(Sum(xs)))>>)
ASSUME \A n \in 1..5 : \A k \in DOMAIN Kinds : PrintT(ToJson(Key(n, Kinds[k])))
ASSUME IOEnv.TIER = "thorough" => \A n \in 6..9 : \A k \in DOMAIN Kinds : PrintT(ToJson(Key(n, Kinds[k])))
New(n, kind) == LET xs == Secrets(n, kind) IN Scen(n, "1", <<NewKey("k", xs), CheckDH("k", At("u"), SMul(At("u"), Sum(xs)))>>)
ASSUME \A n \in 1..4 : \A k \in DOMAIN Kinds : PrintT(ToJson(New(n, Kinds[k])))
\* many parties
ASSUME PrintT(ToJson(Key(9, "any"))) /\ PrintT(ToJson(Key(17, "small"))) /\ PrintT(ToJson(New(12, "nil")))
=============================================================================
