------------------------------- MODULE MCWire --------------------------------
(* The encodings over a small alphabet: prefix-free, exact, safe on garbage,  *)
(* and indifferent to the pieces in which a stream delivers the digits.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Base == 3
LenDigits == 1
MaxLen == 2
Group == {<<1, 2>>, <<1, 7>>, <<5, 0>>, <<8, 1>>, <<3, 8>>}
W == INSTANCE Wire WITH IsPoint <- LAMBDA p : p \in Group
Points == {<< >>} \cup Group
Comms == Points \X Points
Nums == {0, 1, 2, 3, 8}
SomeComms == {<<<< >>, << >>>>, <<<<1, 2>>, << >>>>, <<<< >>, <<5, 0>>>>, <<<<8, 1>>, <<3, 8>>>>}
Strings(n) == UNION {[1..k -> 0..Base-1] : k \in 0..n}
Prefixes(s) == {SubSeq(s, 1, k) : k \in 0..Len(s)-1}

ASSUME RoundTrip == \A p, q \in Points : LET s == W!EncPoint(p) IN W!DecPoint(s \o W!EncPoint(q)) = [ok |-> TRUE, v |-> p, n |-> Len(s)]
ASSUME RoundTripC == \A c \in Comms, q \in Points : LET s == W!EncComm(c) IN W!DecComm(s \o W!EncPoint(q)) = [ok |-> TRUE, v |-> c, n |-> Len(s)]
ASSUME RoundTripP == \A k \in 1..2 : \A z \in [1..k -> Nums], c \in SomeComms :
                        LET s == W!EncProof(z, c) IN W!DecProof(s \o <<0, 1>>, k) = [ok |-> TRUE, v |-> <<z, c>>, n |-> Len(s)]
ASSUME Strict == \A p \in Points : \A s \in Prefixes(W!EncPoint(p)) : ~W!DecPoint(s).ok
ASSUME StrictC == \A c \in Comms : \A s \in Prefixes(W!EncComm(c)) : ~W!DecComm(s).ok
ASSUME StrictP == \A k \in 1..2 : \A z \in [1..k -> Nums], c \in SomeComms : \A s \in Prefixes(W!EncProof(z, c)) : ~W!DecProof(s, k).ok
ASSUME Garbage == \A s \in Strings(6) : LET d == W!DecPoint(s) IN d.ok => d.v \in Points /\ d.n <= Len(s)
ASSUME GarbageC == \A s \in Strings(6) : LET d == W!DecComm(s) IN d.ok => d.v \in Comms /\ d.n <= Len(s)

(* The reader: src is still to come, got was delivered and not used yet. A    *)
(* decoder wants a number of digits before it goes on and takes no more.      *)
Streams == {<<[t |-> "point", p |-> p], [t |-> "comm", c |-> c], [t |-> "point", p |-> q]>> : p \in Points, c \in SomeComms, q \in {<< >>, <<1, 7>>}}
VARIABLES stream, src, got, out
vars == <<stream, src, got, out>>
RECURSIVE All(_)
All(vs) == IF vs = << >> THEN << >> ELSE W!Enc(Head(vs)) \o All(Tail(vs))
Init == stream \in Streams /\ src = All(stream) /\ got = << >> /\ out = << >>
Deliver == src # << >> /\ \E k \in 1..3 : k <= Len(src) /\ got' = got \o SubSeq(src, 1, k) /\ src' = SubSeq(src, k + 1, Len(src)) /\ UNCHANGED <<stream, out>>
Dec(v, s) == IF v.t = "point" THEN W!DecPoint(s) ELSE W!DecComm(s)
\* the next value, as soon as what was delivered suffices
Take == /\ Len(out) < Len(stream)
        /\ LET v == stream[Len(out) + 1]
               d == Dec(v, got)
           IN d.ok /\ out' = Append(out, d.v) /\ got' = SubSeq(got, d.n + 1, Len(got)) /\ UNCHANGED <<stream, src>>
Next == Deliver \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Val(v) == IF v.t = "point" THEN v.p ELSE v.c
Faithful == \A k \in DOMAIN out : out[k] = Val(stream[k])
Complete == Len(out) = Len(stream) => src \o got = << >>
Finishes == <>(Len(out) = Len(stream))
=============================================================================
