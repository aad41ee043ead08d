------------------------------ MODULE TraceSigning -----------------------------
(* Recorded histories of the signing protocol, judged against Signing. The     *)
(* secrets of a presignature are known from the commitments to their shares,   *)
(* which are opened with the discrete logarithm of the commitment key.         *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES n, key, dlog,     \* the signing key; the logarithm of the commitment key, "?" if unknown
          made,             \* presignatures: their four secrets, and their threshold
          queue, used,      \* per party: presignatures left; nonce points published so far
          i, id, live
vars == <<n, key, dlog, made, queue, used, i, id, live>>
S == INSTANCE Signing
Sh == INSTANCE Sharing WITH FAdd <- SAdd, FSub <- SSub, FMul <- SMul, FInv <- SInv, FInt <- LAMBDA a : ZMod(ZInt(a), Order)
Ev == Trace[i]
Reject(want) == PrintT(ToJson([verdict |-> "REJECTED", id |-> id, at |-> i, ev |-> Ev, want |-> want]))
Party == 0..(n - 1)
Res(p) == Ev.res[p + 1]
In == {p \in Party : Res(p).in}
NoPanic == \A p \in Party : Res(p).panic = ""
AllOk == \A p \in In : Res(p).ok
Quiet == Ev.net = << >>
RECURSIVE Points(_)
Points(s) == IF s = << >> THEN Inf ELSE PAdd(Head(s), Points(Tail(s)))
Sum(s) == Sh!SumOf(LAMBDA k : s[k], DOMAIN s)
Drawn(p, a) == {k \in DOMAIN Ev.draws[p + 1] : Scale(Ev.draws[p + 1][k], Generator) = a}
One(T) == CHOOSE x \in T : TRUE
Whole(heads, k) == \A p \in Party : Len(heads[p + 1]) = k

(* Initialisation *)
InitSeen == Whole(Ev.first, 1) /\ Whole(Ev.second, 1)
FirstKey == Points([p \in 1..n |-> Ev.first[p][1]])
SecondKey == Points([p \in 1..n |-> Ev.second[p][1]])
Logs == [p \in 1..n |-> LET T == Drawn(p - 1, Ev.second[p][1]) IN IF T = {} THEN "?" ELSE Ev.draws[p][One(T)]]
SecondLog == IF \E p \in 1..n : Logs[p] = "?" THEN "?" ELSE Sum(Logs)
\* two keys from two draws of every party
Independent == \A p \in Party : \E j \in Drawn(p, Ev.first[p + 1][1]), k \in Drawn(p, Ev.second[p + 1][1]) : j # k
InitOk == Quiet => AllOk /\ NoPanic /\ (Prop = "T03" => InitSeen /\ Independent)

(* Presigning: the commitments of the four generations, opened *)
Opened(c) == PAdd(c[2], PNeg(Scale(dlog, c[1])))
Table(p) == [k \in 1..(IF Len(Ev.draws[p + 1]) < 24 THEN Len(Ev.draws[p + 1]) ELSE 24) |-> Scale(Ev.draws[p + 1][k], Generator)]
Committed(x) == [p \in 1..n |-> LET a == Opened(Ev.comms[x][p])
                                    t == Table(p - 1)
                                    K == {k \in DOMAIN t : t[k] = a}
                                IN IF K = {} THEN "?" ELSE Ev.draws[p][One(K)]]
Seen(x) == dlog # "?" /\ Whole(Ev.comms[x], 2)
Secret(x) == IF ~Seen(x) THEN "?" ELSE LET c == Committed(x) IN IF \E p \in 1..n : c[p] = "?" THEN "?" ELSE Sum(c)
\* which secret is which, if the implementation says so: k, rho, eta and tau, from the shares of all parties
Told == /\ In = Party /\ AllOk /\ \A k \in 1..4 : Len(Ev.roles[k]) = n
Role(k) == Sh!Interpolate(Ev.roles[k], 1..n, 0)
\* of what is told: the numbers the parties hold. With t = 1 everybody holds the secret itself.
Held == UNION {ToSet(Ev.roles[k]) : k \in 1..4}
Presignature == LET x == [x \in 1..4 |-> Secret(x)]
                    r == IF Told THEN [k \in 1..4 |-> Role(k)] ELSE x
                    fixed == Told /\ \E f \in Permutations(1..4) : \A k \in 1..4 : r[k] = x[f[k]]
                IN [t |-> Ev.t, x |-> IF fixed THEN r ELSE x, fixed |-> fixed, held |-> IF Told THEN Held ELSE {}, roles |-> IF Told THEN Ev.roles ELSE << >>]
Known(ps) == \A x \in 1..4 : ps.x[x] # "?"
\* under the second key: opened with its logarithm, the shares are numbers that were drawn, and so are the randomizers
UnderSecond(x) == Whole(Ev.comms[x], 2) => Secret(x) # "?" /\ \A p \in Party : LET t == Table(p) IN \E k \in DOMAIN t : t[k] = Ev.comms[x][p + 1][1]
All(p) == [k \in DOMAIN Ev.draws[p + 1] |-> Scale(Ev.draws[p + 1][k], Generator)]
\* the second coefficients of the polynomials; the highest is a number drawn, plus 1
UnderSecondCoef(x) == \A p \in Party : LET c == Ev.coefs[x][p + 1] IN
    Len(c) >= 4 => LET a == Opened(<<c[3], c[4]>>) T == ToSet(All(p)) IN c[3] \in T /\ (a \in T \/ PAdd(a, PNeg(Generator)) \in T)
(* The shares of a presignature: any t parties have its secrets, no t - 1 do *)
Exact(v, t) == Sh!DegreeBelow(t, v) /\ (t > 1 => Sh!Leading(v, Sh!Smallest(t, DOMAIN v)) # "0")
Reduced(v) == \A k \in DOMAIN v : ZLess(v[k], Order)
Before == UNION {made[j].held : j \in DOMAIN made}
Shared == Told =>
    /\ \A k \in 1..4 : Reduced(Ev.roles[k]) /\ (Ev.t \in 1..n => Exact(Ev.roles[k], Ev.t))
    /\ Cardinality(Held) = (IF Ev.t = 1 THEN 4 ELSE 4 * n)
    /\ Cardinality({Role(k) : k \in 1..4} \cup Held) = (IF Ev.t = 1 THEN 4 ELSE 4 * n + 4)
    /\ Held \cap Before = {}
PresignOk ==
    /\ NoPanic
    /\ Prop \in {"T01", "T02"} /\ Quiet /\ In = Party => IF Ev.t \in 1..n THEN AllOk ELSE \A p \in In : ~Res(p).ok
    /\ Prop = "T05" /\ Quiet => Shared
    /\ Prop = "T03" /\ dlog # "?" => \A x \in 1..4 : UnderSecond(x) /\ (Ev.t = 2 => UnderSecondCoef(x))

(* Signing *)
Oldest(p) == IF queue[p] = << >> THEN 0 ELSE Head(queue[p])
Fronts == {Oldest(p) : p \in In} \ {0}
Same == Cardinality(Fronts) = 1 /\ \A p \in In : Oldest(p) # 0
Ps == made[One(Fronts)]
Nonce(p) == Ev.nonces[p + 1][1]
Published(p) == Len(Ev.nonces[p + 1]) = 1
\* what those who use presignature j publish are shares of one of its secrets
Users(j) == {p \in In : Oldest(p) = j}
At0(T) == Points(LET s == SetToSeq(T) IN [k \in DOMAIN s |-> Scale(Sh!Coef(s[k], T, 0), Nonce(s[k] - 1))])
Biggest(k, T) == LET m == Cardinality(T) - k IN T \ Sh!Smallest(m, T)
UsesOldest(j) == LET ps == made[j]
                     T == {p + 1 : p \in Users(j)}
                 IN Cardinality(T) >= ps.t /\ Known(ps) =>
                    LET a == At0(Sh!Smallest(ps.t, T)) IN a = At0(Biggest(ps.t, T)) /\ \E x \in 1..4 : Scale(ps.x[x], Generator) = a
QueueOk == \A p \in In : IF Oldest(p) = 0 THEN ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).rounds = 0
                         ELSE Res(p).rounds >= 1 /\ Published(p) /\ Nonce(p) \notin used[p]
UseOk == QueueOk /\ \A j \in Fronts : UsesOldest(j)
\* the signature
Lost(x) == {<<Ev.net[k].from, Ev.net[k].to>> : k \in {k \in DOMAIN Ev.net : Ev.net[k].r = x}}
Finish == S!After(In, <<Lost(1), Lost(2), Lost(3)>>, Ps.t)
Enc(a) == IF a = Inf THEN ZHex("0", 4) ELSE LET b(x) == (ZBitLen(x) + 7) \div 8 IN ZHex(ZInt(b(a[1])), 4) \o ZHex(ZInt(b(a[2])), 4) \o ZHex(a[1], b(a[1])) \o ZHex(a[2], b(a[2]))
HashOf(a) == ZMod(ZHkdf(Enc(a), "ThresholdECDSA", "4832460001", 48), Order)
\* the four secrets are k, rho, eta and tau; which one is which matters only if the implementation says so
RightSig(ps, r, s) == \E k \in IF ps.fixed THEN {1} ELSE 1..4 : /\ r = HashOf(Scale(ps.x[k], Generator)) /\ ZLess(s, Order)
                                      /\ \E rho, eta, tau \in (1..4) \ {k} : (ps.fixed => rho = 2 /\ eta = 3 /\ tau = 4) /\ Cardinality({rho, eta, tau}) = 3 /\ S!Equation(ZMod(Ev.msg, Order), r, s, ps.x[rho], ps.x[eta], ps.x[tau])
Unusable(ps) == \E x \in 1..4 : ps.x[x] = "0"
SigOk(p) == Res(p).r # "nil" /\ Res(p).s # "nil" /\ RightSig(Ps, Res(p).r, Res(p).s)
FailOk(p) == ~Res(p).ok /\ Res(p).panic = "" /\ Res(p).r = "nil"
SignOk == Same /\ Known(Ps) =>
    /\ \A p \in In : IF p \in Finish THEN IF Unusable(Ps) /\ ~Res(p).ok THEN FailOk(p) ELSE SigOk(p) ELSE FailOk(p)
    /\ \A p, q \in In : Res(p).ok /\ Res(q).ok => Res(p).r = Res(q).r /\ Res(p).s = Res(q).s
\* what signing publishes: shares of the nonce, of tau and of s, which fewer than t of do not determine
NoncePoints == [k \in 1..n |-> Ev.nonces[k][1]]
PointAt0(T) == Points(LET s == SetToSeq(T) IN [k \in DOMAIN s |-> Scale(Sh!Coef(s[k], T, 0), NoncePoints[s[k]])])
ExactPoints(t) == LET all == 1..n a == PointAt0(Sh!Smallest(t, all)) IN
    /\ a = PointAt0(all \ Sh!Smallest(n - t, all))
    /\ t > 1 => PointAt0(Sh!Smallest(t - 1, all)) # a
Publishes == Same /\ Quiet /\ In = Party /\ AllOk =>
    /\ \A p \in Party : Published(p) /\ Ev.taus[p + 1] # "" /\ Ev.ss[p + 1] # ""
    /\ ExactPoints(Ps.t)
    /\ \A v \in {Ev.taus, Ev.ss} : Reduced(v) /\ Exact(v, Ps.t)
    /\ Ps.roles # << >> => \A k \in 1..n : /\ NoncePoints[k] = Scale(Ps.roles[1][k], Generator)
                                          /\ Ev.taus[k] = Ps.roles[4][k]
                                          /\ Ev.ss[k] \notin Ps.held
\* an ordinary ECDSA signature
Valid(r, s) == /\ r # "0" /\ s # "0" /\ ZLess(r, Order) /\ ZLess(s, Order)
               /\ LET w == SInv(s) a == PAdd(Scale(SMul(ZMod(Ev.msg, Order), w), Generator), Scale(SMul(r, w), key)) IN a # Inf /\ ZMod(a[1], Order) = r
Signers == {p \in In : Res(p).ok}
AllValid == \A p \in Signers : Res(p).r # "nil" /\ Res(p).s # "nil" /\ Valid(Res(p).r, Res(p).s)
Explained == Same /\ Known(Ps) => \A p \in Signers : SigOk(p)
Known04 == PrintT(ToJson([verdict |-> "KNOWN", id |-> id, at |-> i, ev |-> Ev, finding |-> "signature-relation"]))
Judge == CASE Ev.op = "init" -> InitOk
           [] Ev.op = "presign" -> PresignOk
           [] Ev.op = "sign" -> CASE Prop = "T01" -> NoPanic /\ SignOk
                                  [] Prop = "T02" -> NoPanic /\ UseOk
                                  [] Prop = "T05" -> NoPanic /\ Publishes
                                  [] Prop = "T04" -> Same /\ Quiet => AllValid \/ (Explained /\ Known04)
                                  [] OTHER -> TRUE
Want == IF Ev.op = "sign" THEN [fronts |-> [p \in Party |-> Oldest(p)], queue |-> QueueOk, finish |-> IF Same THEN Finish ELSE {}] ELSE [dlog |-> dlog]
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ CASE Ev.op = "reset" -> id' = Ev.id /\ n' = Ev.n /\ live' = TRUE /\ key' = Inf /\ dlog' = "?" /\ made' = << >>
                               /\ queue' = [p \in 0..(Ev.n - 1) |-> << >>] /\ used' = [p \in 0..(Ev.n - 1) |-> {}]
         [] Ev.op = "end" -> UNCHANGED <<n, key, dlog, made, queue, used, id, live>>
         [] ~live -> UNCHANGED <<n, key, dlog, made, queue, used, id, live>>
         [] Ev.op \notin {"init", "presign", "sign"} -> Reject("no such step") /\ live' = FALSE /\ UNCHANGED <<n, key, dlog, made, queue, used, id>>
         [] OTHER -> IF ~Judge THEN Reject(Want) /\ live' = FALSE /\ UNCHANGED <<n, key, dlog, made, queue, used, id>>
                     ELSE CASE Ev.op = "init" ->
                                  /\ live' = (AllOk /\ InitSeen)
                                  /\ IF AllOk /\ InitSeen THEN key' = FirstKey /\ dlog' = SecondLog ELSE UNCHANGED <<key, dlog>>
                                  /\ UNCHANGED <<n, made, queue, used, id>>
                            [] Ev.op = "presign" ->
                                  /\ made' = Append(made, IF Prop = "T03" THEN [t |-> Ev.t, x |-> << >>, fixed |-> FALSE, held |-> {}, roles |-> << >>] ELSE Presignature)
                                  /\ queue' = [p \in Party |-> S!Presigned(queue[p], Len(made) + 1, p \in In /\ Res(p).ok)]
                                  /\ UNCHANGED <<n, key, dlog, used, id, live>>
                            [] OTHER ->
                                  /\ queue' = [p \in Party |-> IF p \in In THEN S!Taken(queue[p]) ELSE queue[p]]
                                  /\ used' = [p \in Party |-> IF p \in In /\ Published(p) THEN used[p] \cup {Nonce(p)} ELSE used[p]]
                                  /\ UNCHANGED <<n, key, dlog, made, id, live>>
Init == n = 0 /\ key = Inf /\ dlog = "?" /\ made = << >> /\ queue = [p \in {} |-> << >>] /\ used = [p \in {} |-> {}] /\ i = 1 /\ id = 0 /\ live = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
