------------------------------- MODULE GenHistory ------------------------------
(* Histories of presigning and signing, successful or not, at all parties or   *)
(* at some. All short ones for two and three parties, and long ones at random. *)
EXTENDS SignBase
All(n) == [p \in 1..n |-> p - 1]
Op(n, c, k) ==
    CASE c = "P" -> Presign(2)
      [] c = "1" -> Presign(1)
      [] c = "Q" -> Net(Presign(2), <<Rule(1 + ((5 * k) % 28), 0, -1, "drop", 0), Rule(1 + ((5 * k) % 28), 1, -1, "drop", 0)>>)   \* fails at all
      [] c = "R" -> Net(Presign(2), <<Drop(28, 1, 0)>>)                                               \* fails at party 0
      [] c = "T" -> Presign(n + 1)                                                                   \* threshold too high
      [] c = "S" -> Sign(Messages[(k % Len(Messages)) + 1])
      [] c = "F" -> Net(Sign(At(Str(k))), Flat([p \in 1..n |-> <<Drop(1, p - 1, -1)>>]))            \* nobody is heard
      [] c = "G" -> Net(Sign(At(Str(k))), Flat([p \in 1..n |-> <<Drop(3, p - 1, -1)>>]))            \* nobody in the last exchange
      [] c = "W" -> Who(Sign(At(Str(k))), <<0, 1>>)
      [] c = "V" -> Who(Sign(At(Str(k))), <<n - 1>>)
Hist(n, s) == Scen(n, <<Init>> \o [k \in DOMAIN s |-> Op(n, s[k], k)])
A == {"P", "Q", "S", "F"}
ASSUME \A a, b, c \in A : \A d \in {"S"} : PrintT(ToJson(Hist(2, <<a, b, c, d>>)))
ASSUME \A s \in {"PPPSSSS", "PPSPSPSS", "PRSSS", "RPSSS", "PPWSS", "PPVSS", "PPFSS", "PPGSS", "P1SSS", "1PSSS", "PTSS", "TPSS", "QQPSS", "PQSPQSS", "SPSPS", "PFPFPS", "PVPVSSS", "RRSSPS", "GSPGS", "PP1SGSS", "PPPFSGSPSSS"} :
    \A n \in {3} : PrintT(ToJson(Hist(n, [k \in 1..Len(s) |-> SubSeq(s, k, k)])))
Letters == <<"P", "P", "P", "1", "Q", "R", "T", "S", "S", "S", "F", "G", "W", "V">>
ASSUME \A k \in 1..20 : \A n \in {2, 3, 4} : PrintT(ToJson(Hist(n, [j \in 1..10 |-> Letters[1 + ZNat(ZAtom(Seed \o Str(k) \o "x" \o Str(n) \o "x" \o Str(j), ZInt(Len(Letters))))]])))
=============================================================================
