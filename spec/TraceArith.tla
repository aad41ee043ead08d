------------------------------- MODULE TraceArith ------------------------------
(* Recorded executions of the arith package, judged against Secrets, Sharing,  *)
(* Dealing, CommitReveal and DHCheck. One event is one operation of all        *)
(* parties; net are changes that were made to messages. The secrets are known  *)
(* from the commitments that were published and from the random draws.         *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES vals,            \* names -> values
          coefs,           \* of the polynomials dealt so far
          drawn,           \* points, scalars, masks and ciphertexts that came from random choices
          n, h, i, id, live
vars == <<vals, coefs, drawn, n, h, i, id, live>>
Sh == INSTANCE Sharing WITH FAdd <- SAdd, FSub <- SSub, FMul <- SMul, FInv <- SInv, FInt <- LAMBDA a : ZMod(ZInt(a), Order)
S == INSTANCE Secrets
D == INSTANCE Dealing
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want]))
Party == 0..(n - 1)
Res(p) == Ev.res[p + 1]
Quiet == Ev.net = << >>
Skipped == \E k \in DOMAIN Ev.res : "skipped" \in DOMAIN Ev.res[k]
AllOk == \A p \in Party : Res(p).ok
NoPanic == \A p \in Party : Res(p).panic = ""

(* A value. point: the secret in the exponent, if known; may: the scalars that *)
(* it may be, {} if nothing is known about it; own: the share of each party;   *)
(* sh: the points of its polynomial; marks: how it was obtained and used.      *)
Nothing == [kind |-> "none", t |-> 0, label |-> "", known |-> FALSE, point |-> Inf, may |-> {}, own |-> << >>, c1 |-> << >>, sh |-> << >>, marks |-> {}]
Val(x) == IF x \in DOMAIN vals THEN vals[x] ELSE Nothing
Put(x, v) == vals' = (x :> v) @@ vals
Judged(marks) == Prop \in marks

RightScalar(v, x) == /\ v # "nil" /\ ZLess(v, Order)
                     /\ IF x.may # {} THEN v \in x.may ELSE x.known => Scale(v, Generator) = x.point
RightPoint(a, x) == IF x.known THEN a = x.point ELSE x.may # {} => \E d \in x.may : a = Scale(d, Generator)
Points(f) == IF f = {} THEN Inf ELSE LET RECURSIVE add(_) add(T) == IF T = {} THEN Inf ELSE LET a == CHOOSE a \in T : TRUE IN PAdd(a[2], add(T \ {a})) IN add(f)

(* Who receives what.                                                          *)
Rules(d, p) == {k \in DOMAIN Ev.net : Ev.net[k].from = d /\ Ev.net[k].to \in {-1, p} /\ d # p}
Useless == {"drop", "empty"} \cup (IF Ev.op = "exp" THEN {"cut", "flip"} ELSE {})
Lost == {<<d, p>> \in Party \X Party : \E k \in Rules(d, p) : Ev.net[k].act \in Useless}

(* Generation *)
PubOk == n > 1 /\ \A p \in Party : Len(Ev.pub[p + 1]) = 2
SharePoint(p) == PAdd(Ev.pub[p + 1][2], PNeg(Scale(h, Ev.pub[p + 1][1])))
Drawn(p, a) == {d \in ToSet(Ev.draws[p + 1]) : Scale(d, Generator) = a}
One(T) == CHOOSE x \in T : TRUE
\* the sum of the first parts of the commitments
FirstSum == Points({<<p, Ev.pub[p + 1][1]>> : p \in Party})
Generated ==
    IF n = 1 THEN [Nothing EXCEPT !.kind = "ads", !.label = Ev.out, !.may = {ZMod(d, Order) : d \in ToSet(Ev.draws[1])}]
    ELSE IF ~PubOk THEN [Nothing EXCEPT !.kind = "ads", !.label = Ev.out]
    ELSE LET a == [p \in Party |-> SharePoint(p)]
             k == [p \in Party |-> LET T == Drawn(p, a[p]) IN IF T = {} THEN "?" ELSE One(T)]
         IN [Nothing EXCEPT !.kind = "ads", !.label = Ev.out, !.known = TRUE, !.point = Points({<<p, a[p]>> : p \in Party}), !.own = k, !.c1 = <<FirstSum>>,
                            !.may = IF \E p \in Party : k[p] = "?" THEN {} ELSE {Sh!SumOf(LAMBDA p : k[p], Party)}]
GenOk == Quiet /\ Judged({"A03"}) => AllOk /\ \A p \in Party : Res(p).label = Ev.out

(* Resharing *)
In == Val(Ev.in)
In2 == Val(Ev.in2)
\* the shares of a threshold value are what is summed when it is reshared itself
Summed(x) == IF x.kind = "ads" THEN [x EXCEPT !.kind = "tds"]
             ELSE IF x.sh = << >> THEN [x EXCEPT !.known = FALSE, !.may = {}]
             ELSE [x EXCEPT !.known = FALSE, !.may = {Sh!SumOf(LAMBDA j : x.sh[j], DOMAIN x.sh)}]
Reshared == [Summed(In) EXCEPT !.t = Ev.t, !.sh = << >>, !.own = << >>, !.marks = @ \ {"A08"}]
\* the dealer's messages towards p
Act(k) == CASE Ev.net[k].act = "drop" -> "gone"
            [] Ev.net[k].act = "shadow" -> IF Ev.twin THEN "twin" ELSE "other"
            [] OTHER -> "junk" \o ToString(k)
Tag(d, p, r) == LET R == {k \in Rules(d, p) : Ev.net[k].r = r} IN IF R = {} THEN "own" ELSE Act(CHOOSE k \in R : \A j \in R : k <= j)
Tags(d, p) == [r \in 1..6 |-> Tag(d, p, r)]
Deviators(p) == {d \in Party \ {p} : D!Noticed(Tags(d, p)) # 0}
Alone(p) == Cardinality(Deviators(p)) = 1 \/ \A j, k \in DOMAIN Ev.net : Ev.net[j].r = Ev.net[k].r /\ Ev.net[j].act = Ev.net[k].act
Named(p) == /\ ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).rerr
            /\ IF Alone(p) THEN Deviators(p) \subseteq ToSet(Res(p).missing) ELSE Deviators(p) \cap ToSet(Res(p).missing) # {}
CaughtOk == \A p \in Party : Deviators(p) # {} => Named(p) /\ ("got" \in DOMAIN Res(p) => ~Res(p).got)
ReshareOk ==
    IF ~Quiet THEN /\ Judged({"A05"}) => CaughtOk
    ELSE IF S!GoodThreshold(Ev.t, n)
         THEN Judged({"A03"} \cup In.marks) => AllOk /\ \A p \in Party : Res(p).t = Ev.t /\ Res(p).label = In.label
         ELSE Judged({"A03"}) => \A p \in Party : ~Res(p).ok /\ Res(p).panic = ""

(* Secrecy. What dealer d sent to the others, one by one, and its secret lie   *)
(* on a polynomial of degree t - 1.                                            *)
Sent(d, p) == {k \in DOMAIN Ev.priv : Ev.priv[k].from = d /\ Ev.priv[k].to = p}
PrivOk == \A d \in Party : \A p \in Party \ {d} : Cardinality(Sent(d, p)) = 1 /\ LET m == Ev.priv[One(Sent(d, p))]
                                                  IN m.eval # "" /\ ZLess(m.eval, Order) /\ ZLess(m.rand, Order)
\* at 0 its secret, elsewhere what the parties got
Dealt(d) == LET others == {p + 1 : p \in Party \ {d}}
                known == In.own # << >> /\ In.own[d] # "?"
            IN [j \in others \cup (IF known THEN {0} ELSE {}) |-> IF j = 0 THEN In.own[d] ELSE Ev.priv[One(Sent(d, j - 1))].eval]
DegreeOk(d) == LET f == Dealt(d)
               IN /\ Sh!DegreeBelow(Ev.t, f)
                  /\ Ev.t > 1 /\ Cardinality(DOMAIN f) >= Ev.t => Sh!Leading(f, Sh!Smallest(Ev.t, DOMAIN f)) # "0"
\* the coefficients of the polynomial from the second, from the differences at 0: f = f(0) + x g
RECURSIVE Coefs(_, _)
Coefs(f, k) == IF k = 0 THEN << >>
               ELSE LET P == Sh!Smallest(k, DOMAIN f)
                        c0 == Sh!Interpolate(f, P, 0)
                        rest == {j \in DOMAIN f : j # 0}
                    IN <<c0>> \o Coefs([j \in rest |-> SMul(SSub(f[j], c0), SInv(ZInt(j)))], k - 1)
Others(d) == LET f == Dealt(d) IN IF Cardinality(DOMAIN f) < Ev.t \/ Ev.t = 1 THEN << >> ELSE Tail(Coefs(f, Ev.t))
RECURSIVE Joined(_, _)
Joined(Op(_), T) == IF T = {} THEN << >> ELSE LET x == CHOOSE x \in T : TRUE IN Op(x) \o Joined(Op, T \ {x})
\* the highest coefficients, the ones between, and the points that the published commitments begin with; not too many
Last100(s) == IF Len(s) > 100 THEN SubSeq(s, Len(s) - 99, Len(s)) ELSE s
AllCoefs == LET high(d) == LET c == Others(d) IN IF c = << >> THEN << >> ELSE <<c[Len(c)]>>
                mid(d) == LET c == Others(d) IN IF c = << >> THEN << >> ELSE Front(c)
            IN [high |-> Last100(coefs.high \o Joined(high, Party)), mid |-> Last100(coefs.mid \o Joined(mid, Party)), firsts |-> coefs.firsts \o Ev.firsts]
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
Varied(s) == LET m == Len(s)
             IN \/ m < 2
                \/ Distinct(s) /\ ZVary(s) > (CASE m < 5 -> 40 [] m < 10 -> 200 [] m < 20 -> 230 [] m < 64 -> 250 [] OTHER -> 255)
RandOk == Ev.zeros = 0 =>
    LET c == AllCoefs IN
    /\ Varied(c.high) /\ Varied(c.mid) /\ Distinct(c.high \o c.mid)
    /\ Distinct(c.firsts) /\ ToSet(c.firsts) \cap {Inf, Generator} = {}
    /\ \A d \in Party : In.own # << >> => In.own[d] \notin ToSet(c.high) \cup ToSet(c.mid)
SecretOk == PrivOk /\ (\A d \in Party : DegreeOk(d)) /\ (Ev.zeros = 0 /\ (\A d \in DOMAIN In.own : In.own[d] # "0") => Ev.found = << >>) /\ RandOk

(* Revealing and exponentiating *)
Has(p) == S!Enough(p, Party, Lost, In.t)
RevealOk == \A p \in Party : IF Has(p) THEN Res(p).ok /\ RightScalar(Res(p).v, In) ELSE ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).v = "nil"
RevealOf(p) == Has(p) => Res(p).ok /\ RightScalar(Res(p).v, In)
ShPts == [j \in 1..n |-> Ev.shares[j]]
SharesKnown == Quiet /\ n > 1 /\ \A j \in 1..n : Ev.shares[j] # ""
RevealJudge == CASE Judged({"A06"}) -> RevealOk
                 [] Judged({"A03"}) -> (\A p \in Party : RevealOf(p)) /\ (SharesKnown => Sh!DegreeBelow(In.t, ShPts))
                 [] Judged(In.marks) -> IF Prop = "A08" /\ "A08" \in In.marks THEN RevealOk ELSE \A p \in Party : RevealOf(p)
                 [] OTHER -> TRUE
\* what is known afterwards
Seen == LET ok == {Res(p).v : p \in {q \in Party : Res(q).ok /\ Has(q)}}
        IN [In EXCEPT !.may = IF Cardinality(@) > 1 /\ Cardinality(ok) = 1 THEN ok ELSE @, !.sh = IF SharesKnown THEN ShPts ELSE @]
ExpOf(p) == Res(p).ok /\ RightPoint(Res(p).pk, In) /\ Res(p).label = In.label /\ Res(p).t = In.t
ExpJudge == Judged({"A07", "A12"} \cup In.marks) => \A p \in Party : IF Has(p) THEN ExpOf(p) ELSE Judged({"A07", "A12"}) => ~Res(p).ok /\ Res(p).panic = ""

(* Linear combinations, products *)
LinVal == [Nothing EXCEPT !.kind = "tds", !.t = In.t, !.label = Ev.out, !.marks = {"A08"} \cup In.marks \cup In2.marks,
                          !.known = In.known /\ In2.known, !.may = {S!Combination(ZMod(Ev.alpha, Order), ZMod(Ev.beta, Order), a, b) : a \in In.may, b \in In2.may}]
LinPoint(v) == IF v.known THEN [v EXCEPT !.point = PAdd(Scale(Ev.alpha, In.point), Scale(Ev.beta, In2.point))] ELSE v
LinOk == Judged({"A08"} \cup In.marks \cup In2.marks) => AllOk /\ \A p \in Party : Res(p).label = Ev.out /\ Res(p).t = In.t
ProdVal == [Nothing EXCEPT !.kind = "ads", !.label = Ev.out, !.marks = {"A09"}, !.may = {S!Product(a, b) : a \in In.may, b \in In2.may}, !.c1 = IF PubOk THEN <<FirstSum>> ELSE << >>]
\* the share of the product that a party committed to is the one it goes on with, so the commitments tell the secret too
MultOk == Judged({"A09"}) /\ Quiet =>
    /\ AllOk /\ \A p \in Party : Res(p).label = Ev.out
    /\ PubOk /\ Cardinality(ProdVal.may) = 1 => Points({<<p, SharePoint(p)>> : p \in Party}) = Scale(One(ProdVal.may), Generator)
Total(s) == Sh!SumOf(LAMBDA k : ZMod(s[k], Order), DOMAIN s)
PrivMultOk == Judged({"A09"}) => /\ AllOk /\ \A p \in Party : ZLess(Res(p).v, Order)
                                 /\ Total([k \in DOMAIN Ev.res |-> Ev.res[k].v]) = S!Product(Total(Ev.a), Total(Ev.b))

(* Randomness. What a party publishes comes from fresh random numbers of full  *)
(* width, none of which is used twice.                                         *)
NoDraws == [pts |-> {}, rs |-> << >>, ss |-> << >>, masks |-> << >>, encs |-> {}, bins |-> [k \in 1..3 |-> <<0, 0, 0, 0>>]]
\* how many numbers are in each quarter of their range: as many, up to seven standard deviations
Quarter(x, m) == IF ZLess(ZMul("2", x), m) THEN (IF ZLess(ZMul("4", x), m) THEN 1 ELSE 2) ELSE IF ZLess(ZMul("4", x), ZMul("3", m)) THEN 3 ELSE 4
Counted(b, s, m) == FoldLeft(LAMBDA c, x : [c EXCEPT ![Quarter(x, m)] = @ + 1], b, s)
Even(b) == LET m == b[1] + b[2] + b[3] + b[4] IN m < 60 \/ \A q \in 1..4 : (4 * b[q] - m) * (4 * b[q] - m) <= 147 * m
Logs(k) == SelectSeq([p \in 1..n |-> Ev.logs[p][k]], LAMBDA x : x # "")
\* the commitment to the product of the own share with the other secret, without its known part
Rest(p) == PAdd(Ev.pub4[p + 1][1], PNeg(Scale(In.own[p], In2.c1[1])))
Rests == IF In.own # << >> /\ In2.c1 # << >> /\ (\A p \in Party : In.own[p] # "?" /\ Len(Ev.pub4[p + 1]) = 2) THEN [p \in 1..n |-> Rest(p - 1)] ELSE << >>
NewPoints == CASE Ev.op = "gen" -> [k \in 1..n |-> Ev.pub[k][1]] \o [k \in 1..n |-> SharePoint(k - 1)]
               [] Ev.op = "mult" -> [k \in 1..n |-> Ev.pub[k][1]] \o Rests
               [] Ev.op = "dkey" -> [k \in 1..n |-> Ev.pub[k][1]]
               [] Ev.op = "checkdh" -> [k \in 1..n |-> Ev.pub[k][2]]
Published == n > 1 /\ \A p \in Party : Len(Ev.pub[p + 1]) = (IF Ev.op = "dkey" THEN 1 ELSE 2)
\* the first scalar of a check of the neutral element does not show
NoFirst == Ev.op = "checkdh" /\ ZMod(Ev.u, Order) = "0"
NewRs == IF Ev.op = "dkey" \/ NoFirst THEN << >> ELSE Logs(1)
NewSs == CASE Ev.op = "dkey" -> Logs(1) [] Ev.op \in {"gen", "checkdh"} -> Logs(2) [] OTHER -> << >>
NewDraws == IF Ev.op \notin {"gen", "mult", "dkey", "checkdh"} \/ "logs" \notin DOMAIN Ev \/ ~Published THEN drawn
            ELSE [drawn EXCEPT !.pts = @ \cup ToSet(NewPoints),
                               !.rs = Last100(@ \o NewRs),
                               !.ss = Last100(@ \o NewSs),
                               !.bins = <<Counted(@[1], NewRs, Order), Counted(@[2], NewSs, Order), @[3]>>]
\* what is said to be a logarithm is one
LogsOk == \A k \in 1..n : /\ Ev.op \in {"gen", "mult", "dkey"} /\ Ev.logs[k][1] # "" => Scale(Ev.logs[k][1], Generator) = Ev.pub[k][1]
                          /\ Ev.op = "gen" /\ Ev.logs[k][2] # "" => Scale(Ev.logs[k][2], Generator) = SharePoint(k - 1)
                          /\ Ev.op = "checkdh" /\ Ev.logs[k][1] # "" => PAdd(Scale(SMul(Ev.logs[k][1], Ev.u), Generator), Scale(Ev.logs[k][2], Generator)) = Ev.pub[k][2]
\* no number is a small multiple of another one
Few == 2..5
Multiples == {Scale(ToString(c), p) : c \in Few, p \in ToSet(NewPoints)}
\* nor differ two by a small multiple of the generator or of the commitment key
Near == UNION {{PAdd(p, Scale(ToString(c), Generator)), PAdd(p, PNeg(Scale(ToString(c), Generator)))} : c \in 1..6, p \in ToSet(NewPoints)}
        \cup UNION {{PAdd(p, Scale(h, Generator)), PAdd(p, PNeg(Scale(h, Generator)))} : p \in ToSet(NewPoints)}
Unrelated == LET m == Multiples IN /\ Near \cap (ToSet(NewPoints) \cup {PNeg(p) : p \in ToSet(NewPoints)}) = {}
                                   /\ Cardinality(m) = 4 * Len(NewPoints)
                                   /\ (m \cup {PNeg(p) : p \in m} \cup {PNeg(p) : p \in ToSet(NewPoints)}) \cap ToSet(NewPoints) = {}
MasksFresh == LET d == NewDraws
              IN /\ Unrelated /\ Distinct(NewPoints) /\ ToSet(NewPoints) \cap (drawn.pts \cup {Inf, Generator, PNeg(Generator), Scale(h, Generator)}) = {}
                 /\ LogsOk
                 /\ {"0", "1"} \cap ToSet(d.rs \o d.ss) = {}
                 /\ Distinct(d.rs \o d.ss) /\ Varied(d.rs) /\ Varied(d.ss) /\ Even(d.bins[1]) /\ Even(d.bins[2])
FreshOk == Judged({"A11"}) /\ "logs" \in DOMAIN Ev /\ n > 1 /\ Quiet /\ ~Ev.planned => (Ev.op = "checkdh" \/ AllOk) /\ Published /\ MasksFresh

(* Multiplying. What j answers to i, who sent its encrypted share: the product *)
(* minus a mask.                                                               *)
Low540 == "1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"
AliceA(m) == IF Ev.op = "privmult" THEN ZMod(Ev.a[m.i + 1], Order) ELSE In.own[m.i]
BobB(m) == IF Ev.op = "privmult" THEN ZMod(Ev.b[m.j + 1], Order) ELSE In2.own[m.j]
FactorsKnown == Ev.op = "privmult" \/ (In.own # << >> /\ In2.own # << >> /\ \A p \in Party : In.own[p] # "?" /\ In2.own[p] # "?")
MaskOf(m) == ZMod(ZAdd(ZMul(AliceA(m), BobB(m)), ZSub(m.key, ZMod(m.df, m.key))), m.key)
Square(x) == ZMul(x, x)
\* a ciphertext in which nothing is random
Bare(m, x) == ZPowM(ZAdd(m.key, "1"), ZMod(x, m.key), Square(m.key))
MaskOk(m) == LET t == MaskOf(m) IN
    /\ m.de = AliceA(m) /\ m.e # Bare(m, m.de)
    /\ m.f # ZMod(ZMul(ZPowM(m.e, BobB(m), Square(m.key)), Bare(m, ZSub(m.key, t))), Square(m.key))
    /\ ~Ev.planned => ZLess(Low540, t) /\ ZLess(t, ZSub(m.key, Low540))
Masked == "mta" \in DOMAIN Ev /\ FactorsKnown
NewMasks == IF ~Masked \/ Ev.planned THEN drawn
            ELSE [drawn EXCEPT !.masks = Last100(@ \o [k \in DOMAIN Ev.mta |-> ZMod(MaskOf(Ev.mta[k]), Low540)]),
                               !.bins = <<@[1], @[2], Counted(@[3], [k \in DOMAIN Ev.mta |-> ZMod(MaskOf(Ev.mta[k]), Low540)], Low540)>>, !.encs = @ \cup {m.f : m \in ToSet(Ev.mta)} \cup {m.e : m \in ToSet(Ev.mta)}]
Varied540(s) == Len(s) < 5 \/ (Distinct(s) /\ ZVary(s) > (IF Len(s) < 12 THEN 450 ELSE IF Len(s) < 64 THEN 525 ELSE 539))
\* the question of i is the same for everybody; otherwise no ciphertext appears twice
Encs == {<<m.i, m.e>> : m \in ToSet(Ev.mta)} \cup {<<m.i, m.j, m.f>> : m \in ToSet(Ev.mta)}
HidesOk == Judged({"A13"}) /\ Quiet /\ Masked =>
    /\ AllOk /\ Len(Ev.mta) = n * (n - 1)
    /\ \A m \in ToSet(Ev.mta) : MaskOk(m)
    /\ ~Ev.planned => /\ Varied540(NewMasks.masks) /\ Even(NewMasks.bins[3])
                      /\ Cardinality({m.f : m \in ToSet(Ev.mta)}) = Len(Ev.mta)
                      /\ ({m.f : m \in ToSet(Ev.mta)} \cup {m.e : m \in ToSet(Ev.mta)}) \cap drawn.encs = {}

(* Keys *)
KeyPub == n > 1 /\ \A p \in Party : Len(Ev.pub[p + 1]) = 1
KeySum == Points({<<p, Ev.pub[p + 1][1]>> : p \in Party})
DKeyOk == Judged({"A01"}) /\ Quiet =>
    /\ AllOk /\ \A p \in Party : Res(p).label = Ev.out /\ Res(p).pk = Res(0).pk
    /\ IF n = 1 THEN \E d \in ToSet(Ev.draws[1]) : Res(0).pk = Scale(d, Generator)
       ELSE KeyPub /\ Res(0).pk = KeySum /\ \A p \in Party : Drawn(p, Ev.pub[p + 1][1]) # {}
NewKeyOk == Judged({"A01", "A10"}) => AllOk /\ \A p \in Party : Res(p).label = Ev.out /\ Res(p).pk = Scale(Total(Ev.a), Generator)
KeyVal == [Nothing EXCEPT !.kind = "key", !.known = TRUE, !.point = Res(0).pk]
Correct == Scale(Ev.v, Generator) = Scale(Ev.u, In.point)
CheckOk == CASE Judged({"A10"}) -> IF Correct THEN AllOk ELSE NoPanic /\ \A p \in Party : ~Res(p).ok
             [] Judged({"A01"}) -> Correct => AllOk
             [] OTHER -> TRUE

(* Commit, then reveal *)
Start == IF Ev.op = "reshare" THEN 2 ELSE 1
Two(d, p) == <<Tag(d, p, Start), Tag(d, p, Start + 1)>>
Differs(d, p) == LET m == Two(d, p) IN m[1] # m[2] \/ m[1] \notin {"own", "twin"}
Fixed == \A p \in Party : LET bad == {d \in Party \ {p} : Differs(d, p)}
                              gone == {d \in bad : Two(d, p)[1] = "gone"}
                          IN bad # {} => /\ ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).rerr
                                         /\ IF gone # {} THEN gone \subseteq ToSet(Res(p).missing) /\ Res(p).rounds = Start
                                            ELSE bad \cap ToSet(Res(p).missing) # {}
FixedOk == Judged({"A02"}) /\ ~Quiet /\ (\A k \in DOMAIN Ev.net : Ev.net[k].r \in {Start, Start + 1}) => Fixed

(* Unusable messages: what is said of them by Blame; all that was changed is   *)
(* unusable at once.                                                           *)
B == INSTANCE Blame
BadMsgs == {<<Ev.net[k].r, Ev.net[k].from, Ev.net[k].to>> : k \in DOMAIN Ev.net}
Rounds == CASE Ev.op \in {"gen", "exp"} -> 1 [] Ev.op = "checkdh" -> 3 [] Ev.op = "mult" -> 4 [] OTHER -> 2
Ended == B!After(Party, BadMsgs, Rounds)
BlameOf(p) == IF Ended.stopped[p] = 0 THEN Res(p).ok
              ELSE /\ ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).rerr
                   /\ ToSet(Res(p).missing) = Ended.blame[p] /\ Res(p).rounds = Ended.stopped[p]
BlameOk == Judged({"A12"}) => \A p \in Party : BlameOf(p)

Judge == CASE Ev.op = "gen" -> GenOk /\ FreshOk /\ BlameOk
           [] Ev.op = "reshare" -> ReshareOk /\ FixedOk /\ (Judged({"A04"}) /\ "priv" \in DOMAIN Ev => AllOk /\ SecretOk)
           [] Ev.op = "reveal" -> RevealJudge
           [] Ev.op = "exp" -> ExpJudge
           [] Ev.op = "lin" -> LinOk
           [] Ev.op = "mult" -> MultOk /\ FreshOk /\ HidesOk /\ BlameOk
           [] Ev.op = "privmult" -> PrivMultOk /\ HidesOk /\ BlameOk
           [] Ev.op = "dkey" -> DKeyOk /\ FixedOk /\ FreshOk /\ BlameOk
           [] Ev.op = "newdkey" -> NewKeyOk
           [] Ev.op = "checkdh" -> CheckOk /\ FixedOk /\ FreshOk /\ BlameOk
Want == CASE Ev.op \in {"reveal", "exp"} -> [enough |-> {p \in Party : Has(p)}, may |-> In.may, point |-> In.point]
          [] Prop = "A11" /\ Ev.op \in {"gen", "mult", "dkey", "checkdh"} /\ "logs" \in DOMAIN Ev -> [published |-> Published, scalars |-> NewDraws.rs \o NewDraws.ss]
          [] Prop = "A13" /\ Masked -> [masked |-> {m \in ToSet(Ev.mta) : MaskOk(m)} = ToSet(Ev.mta), bits |-> [k \in DOMAIN Ev.mta |-> ZBitLen(MaskOf(Ev.mta[k]))]]
          [] Prop = "A12" -> Ended
          [] Ev.op = "reshare" /\ ~Quiet -> [deviators |-> [p \in Party |-> Deviators(p)]]
          [] Ev.op = "reshare" /\ "priv" \in DOMAIN Ev -> IF PrivOk THEN [degree |-> {d \in Party : DegreeOk(d)}, random |-> RandOk] ELSE [private |-> FALSE]
          [] OTHER -> [right |-> FALSE]
\* operations that must have worked for the rest to make sense
Usable == Quiet /\ AllOk
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> id' = Ev.id /\ n' = Ev.n /\ h' = Ev.h /\ live' = TRUE /\ vals' = [x \in {} |-> Nothing] /\ coefs' = [coefs EXCEPT !.firsts = << >>] /\ drawn' = [drawn EXCEPT !.pts = {}, !.encs = {}]
         [] Ev.op = "end" -> UNCHANGED <<vals, coefs, drawn, n, h, id, live>>
         [] ~live -> UNCHANGED <<vals, coefs, drawn, n, h, id, live>>
         [] Ev.op \notin {"gen", "reshare", "reveal", "exp", "lin", "mult", "privmult", "dkey", "newdkey", "checkdh"} -> Reject("no such step") /\ live' = FALSE /\ UNCHANGED <<vals, coefs, drawn, n, h, id>>
         [] Skipped -> live' = FALSE /\ UNCHANGED <<vals, coefs, drawn, n, h, id>>
         [] OTHER -> IF ~Judge THEN Reject(Want) /\ live' = FALSE /\ UNCHANGED <<vals, coefs, drawn, n, h, id>>
                     ELSE /\ CASE Ev.op = "gen" -> Put(Ev.out, IF Usable THEN Generated ELSE Nothing)
                               [] Ev.op = "reshare" -> Put(Ev.out, IF Usable THEN Reshared ELSE Nothing)
                               [] Ev.op = "reveal" -> Put(Ev.in, Seen)
                               [] Ev.op = "lin" -> vals' = (Ev.out :> LinPoint(LinVal)) @@ (Ev.in :> [In EXCEPT !.marks = @ \cup {"A08"}]) @@ (Ev.in2 :> [In2 EXCEPT !.marks = @ \cup {"A08"}]) @@ vals
                               [] Ev.op = "mult" -> Put(Ev.out, IF Usable THEN ProdVal ELSE Nothing)
                               [] Ev.op \in {"dkey", "newdkey"} -> Put(Ev.out, IF Usable THEN KeyVal ELSE Nothing)
                               [] OTHER -> UNCHANGED vals
                          /\ coefs' = IF Ev.op = "reshare" /\ "priv" \in DOMAIN Ev /\ Judged({"A04"}) /\ Ev.zeros = 0 THEN AllCoefs ELSE coefs
                          /\ drawn' = CASE Prop = "A11" /\ "logs" \in DOMAIN Ev /\ ~Ev.planned /\ Quiet -> NewDraws
                                        [] Prop = "A13" /\ Quiet -> NewMasks
                                        [] OTHER -> drawn
                          /\ live' = (Usable \/ Ev.op \notin {"gen", "reshare", "mult", "dkey", "newdkey", "lin"} \/ ~S!GoodThreshold(Ev.t, n) \/ ~Quiet)
                          /\ UNCHANGED <<n, h, id>>
Init == vals = [x \in {} |-> Nothing] /\ coefs = [high |-> << >>, mid |-> << >>, firsts |-> << >>] /\ drawn = NoDraws /\ n = 0 /\ h = "0" /\ i = 1 /\ id = 0 /\ live = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
