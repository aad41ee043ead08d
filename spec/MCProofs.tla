------------------------------ MODULE MCProofs -------------------------------
(* The protocols over Z_Q for a small prime Q, exhaustively, and the game of  *)
(* a forger against the Fiat-Shamir challenge.                                *)
(* In the game the challenge is an oracle that is asked with the values of a  *)
(* set of fields (Asked) and answers with a fresh arbitrary number. The       *)
(* forger does not know the witness: it fixes the fields in Asked first, gets *)
(* e, and then chooses everything else. It is shown that                      *)
(*  - when Asked is the complete statement and first message, then whatever   *)
(*    was fixed, at most one answer of the oracle lets a false refreshment    *)
(*    pass, and two answers to the same first message reveal the witness;     *)
(*  - when any field is missing, some forger always wins: this is why the     *)
(*    challenge has to depend on all of them, and each of those winning moves *)
(*    is tried against the code (GenForge).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Q
Z == 0..Q-1
S == INSTANCE Proofs WITH SAdd <- LAMBDA a, b : (a + b) % Q, SNeg <- LAMBDA a : (Q - a) % Q, SMul <- LAMBDA a, b : (a * b) % Q, SZero <- 0
Pairs == Z \X Z

Complete == \A h \in Z, w \in Pairs, rand \in Pairs, e \in Z :
    S!Equation(h, <<S!Comm(h, w[1], w[2])>>, S!First(h, rand), e, S!Respond(rand, w, e))
CompleteRefresh == \A h \in Z, c \in Pairs, s \in Z, sigma \in Z, e \in Z :
    S!Equation(h, <<c, S!PairAdd(c, S!Comm(h, 0, s))>>, S!First(h, <<0, sigma>>), e, S!Respond(<<0, sigma>>, <<0, s>>, e))
Inv == [a \in 1..Q-1 |-> CHOOSE b \in 1..Q-1 : (a * b) % Q = 1]
\* two accepting transcripts with one first message reveal the witness
Accepting(h, stmt, xy, e) == {z \in Pairs : S!Equation(h, stmt, xy, e, z)}
Sound == \A h \in {0, 1, 3}, c \in Pairs, xy \in Pairs :
    LET acc == [e \in Z |-> Accepting(h, <<c>>, xy, e)]
    IN \A e, f \in Z : e # f => \A y \in acc[e], z \in acc[f] :
        LET d == Inv[(e - f) % Q]
        IN S!Witness(h, <<c>>, <<((y[1] - z[1]) * d) % Q, ((y[2] - z[2]) * d) % Q>>)
\* a false refreshment passes with at most one challenge
FalseRefresh == \A h \in Z, d \in Pairs, xy \in Pairs : d[2] # (h * d[1]) % Q =>
    Cardinality({e \in Z : \E z1 \in Z : S!Equation(h, <<S!Zero, d>>, xy, e, <<0, z1>>)}) <= 1
\* a proof of a nonzero statement passes for another statement with at most one challenge
Bound == \A h \in {0, 2}, c \in Pairs, xy \in Pairs, z \in Pairs : c # S!Zero =>
    Cardinality({e \in Z : S!Equation(h, <<c>>, xy, e, z)}) <= 1
\* zero knowledge: for a given challenge every accepting transcript can be made without a witness
Simulated == \A h \in {0, 1, 3}, w \in Pairs, e \in Z :
    {<<S!First(h, rand), S!Respond(rand, w, e)>> : rand \in Pairs}
    = {<<S!PairAdd(S!Comm(h, z[1], z[2]), S!PairNeg(S!PairMul(e, S!Comm(h, w[1], w[2])))), z>> : z \in Pairs}
\* a response tells nothing about the witness if what blinds it may be anything, and something otherwise
Consistent(z, e, K) == {w \in Pairs : \E rand \in K \X K : S!Respond(rand, w, e) = z}
Hidden == \A z \in Pairs, e \in Z : Consistent(z, e, Z) = Pairs
NarrowTells == \A k \in 1..(Q - 1) : \A z \in Pairs, e \in Z \ {0} : Consistent(z, e, 0..(k - 1)) # Pairs
\* two proofs that are blinded by the same numbers give the difference of the witnesses away, or the witness
TwiceTells == \A rand, w \in Pairs : \A e, f \in Z : e # f =>
    LET y == S!Respond(rand, w, e) z == S!Respond(rand, w, f) d == Inv[(e - f) % Q] IN w = <<((y[1] - z[1]) * d) % Q, ((y[2] - z[2]) * d) % Q>>
ASSUME Hidden
ASSUME NarrowTells
ASSUME TwiceTells
ASSUME Complete
ASSUME CompleteRefresh
ASSUME Sound
ASSUME FalseRefresh
ASSUME Bound
ASSUME Simulated

(* The game for know: fields s1 s2 (statement), x1 x2 (first message). The    *)
(* forger wins with a statement one of whose points it does not know the      *)
(* logarithm of when it did not have to fix all fields before the answer.     *)
\* Winning moves, by the field that the challenge forgets; all but that field is fixed before e is known.
WinKnow(h, e, forgot) ==
    CASE forgot = "x1" -> \* s = <<A, w>>, content of s2 known, A is not
            \A A, w, sigma, rho \in Z :
                LET z == <<(rho + e * w) % Q, sigma>>
                IN S!Equation(h, <<<<A, w>>>>, <<(sigma - e * A) % Q, (rho + h * sigma) % Q>>, e, z)
      [] forgot = "x2" -> \A r, B, sigma, z2 \in Z :
                LET z1 == (sigma + e * r) % Q
                IN S!Equation(h, <<<<r, B>>>>, <<sigma, (z2 + h * z1 - e * B) % Q>>, e, <<z2, z1>>)
      [] forgot = "s1" -> e # 0 => \A X, w, z1, rho \in Z :
                S!Equation(h, <<<<((z1 - X) * Inv[e]) % Q, w>>>>, <<X, (rho + h * z1) % Q>>, e, <<(rho + e * w) % Q, z1>>)
      [] forgot = "s2" -> e # 0 => \A X, r, sigma, z2 \in Z :
                LET z1 == (sigma + e * r) % Q
                IN S!Equation(h, <<<<r, ((z2 + h * z1 - X) * Inv[e]) % Q>>>>, <<sigma, X>>, e, <<z2, z1>>)
      [] forgot = "x" -> \A A, B, z1, z2 \in Z :
                S!Equation(h, <<<<A, B>>>>, <<(z1 - e * A) % Q, (z2 + h * z1 - e * B) % Q>>, e, <<z2, z1>>)
      [] forgot = "s" -> e # 0 => \A X, Y, z1, z2 \in Z :
                S!Equation(h, <<<<((z1 - X) * Inv[e]) % Q, ((z2 + h * z1 - Y) * Inv[e]) % Q>>>>, <<X, Y>>, e, <<z2, z1>>)
WinRefresh(h, e, forgot) ==
    CASE forgot = "x1" -> \A A, w, sigma \in Z : \* Delta = <<A, h*w>>
                S!Equation(h, <<S!Zero, <<A, (h * w) % Q>>>>, <<(sigma + e * w - e * A) % Q, (h * sigma) % Q>>, e, <<0, (sigma + e * w) % Q>>)
      [] forgot = "x2" -> \A B, w, sigma \in Z :
                S!Equation(h, <<S!Zero, <<w, B>>>>, <<sigma, (h * (sigma + e * w) - e * B) % Q>>, e, <<0, (sigma + e * w) % Q>>)
      [] forgot = "d1" -> e # 0 => \A X, w, sigma \in Z :
                LET z1 == (sigma + e * w) % Q
                IN S!Equation(h, <<S!Zero, <<((z1 - X) * Inv[e]) % Q, (h * w) % Q>>>>, <<X, (h * sigma) % Q>>, e, <<0, z1>>)
      [] forgot = "d2" -> e # 0 => \A X, w, sigma \in Z :
                LET z1 == (sigma + e * w) % Q
                IN S!Equation(h, <<S!Zero, <<w, ((h * z1 - X) * Inv[e]) % Q>>>>, <<sigma, X>>, e, <<0, z1>>)
      [] forgot = "x" -> \A A, B, z1 \in Z :
                S!Equation(h, <<S!Zero, <<A, B>>>>, <<(z1 - e * A) % Q, (h * z1 - e * B) % Q>>, e, <<0, z1>>)
      [] forgot = "d" -> e # 0 => \A X, Y, z1 \in Z :
                S!Equation(h, <<S!Zero, <<((z1 - X) * Inv[e]) % Q, ((h * z1 - Y) * Inv[e]) % Q>>>>, <<X, Y>>, e, <<0, z1>>)
ASSUME \A h, e \in Z : \A f \in {"x1", "x2", "s1", "s2", "x", "s"} : WinKnow(h, e, f)
ASSUME \A h, e \in Z : \A f \in {"x1", "x2", "d1", "d2", "x", "d"} : WinRefresh(h, e, f)

(* The game as a transition system: fix the complete statement and first      *)
(* message, let the oracle answer, respond. With all fields fixed, over all   *)
(* answers, a forger of a false refreshment wins at most once in Q.           *)
VARIABLES stage, h, d, xy, e, z
vars == <<stage, h, d, xy, e, z>>
Init == stage = "fix" /\ h \in {0, 2} /\ d \in Pairs /\ xy \in Pairs /\ e = 0 /\ z = 0
Answer == stage = "fix" /\ stage' = "answered" /\ e' \in Z /\ UNCHANGED <<h, d, xy, z>>
Reply == stage = "answered" /\ stage' = "done" /\ z' \in Z /\ UNCHANGED <<h, d, xy, e>>
Next == Answer \/ Reply
Spec == Init /\ [][Next]_vars
Wins == stage = "done" /\ S!Equation(h, <<S!Zero, d>>, xy, e, <<0, z>>)
True == d[2] = (h * d[1]) % Q
\* the one answer that lets a false statement pass is determined by what was fixed
Lucky == CHOOSE x \in Z : (xy[2] + x * d[2] - h * (xy[1] + x * d[1])) % Q = 0
OnlyLuck == Wins /\ ~True => e = Lucky
=============================================================================
