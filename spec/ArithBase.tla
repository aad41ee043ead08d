------------------------------- MODULE ArithBase -------------------------------
(* Vocabulary of the scenarios for the arith package (harness/harith).         *)
EXTENDS Secp256k1, TLC, Json, IOUtils, FiniteSets, SequencesExt
Seed == IOEnv.SEED
At(x) == ZAtom(Seed \o x, Order)
Rand(name, k) == ZNat(ZAtom(Seed \o name, ZInt(k)))
Pick(name, s) == s[Rand(name, Len(s)) + 1]
Str(k) == ToString(k)
M1 == SNeg("1")
Two256 == ZMul("10000000000000000000000000000000000000000", "1000000000000000000000000")

Scen(n, h, ops) == [n |-> n, h |-> h, ops |-> ops]
Shadowed(s, ps) == ("shadows" :> ps) @@ s
Gen(out) == [op |-> "gen", out |-> out]
\* draws: party -> the first random numbers of the operation; "" is any
With(o, draws) == ("draws" :> draws) @@ o
Net(o, rules) == ("net" :> rules) @@ o
Zeros(o, k) == ("zeros" :> k) @@ o
Watch(o) == ("watch" :> TRUE) @@ o
Twin(o) == ("twin" :> TRUE) @@ o
Reshare(in, out, t) == [op |-> "reshare", in |-> in, out |-> out, t |-> t]
Reveal(in) == [op |-> "reveal", in |-> in]
Exp(in) == [op |-> "exp", in |-> in]
Lin(al, a, be, b, out) == [op |-> "lin", alpha |-> al, in |-> a, beta |-> be, in2 |-> b, out |-> out]
Mult(a, b, out) == [op |-> "mult", in |-> a, in2 |-> b, out |-> out]
PrivMult(a, b) == [op |-> "privmult", a |-> a, b |-> b]
DKey(out) == [op |-> "dkey", out |-> out]
NewKey(out, a) == [op |-> "newdkey", out |-> out, a |-> a]
CheckDH(in, u, v) == [op |-> "checkdh", in |-> in, u |-> u, v |-> v]
Rule(r, from, to, act, arg) == [r |-> r, from |-> from, to |-> to, act |-> act, arg |-> arg, data |-> "0"]
Drop(r, from, to) == Rule(r, from, to, "drop", 0)

\* the first draws of the parties, from a function of parties
Draws(n, f(_)) == [p \in {Str(q) : q \in 0..(n-1)} |-> f(CHOOSE q \in 0..(n-1) : Str(q) = p)]
First(n, xs) == Draws(n, LAMBDA q : <<xs[q + 1]>>)
\* a generation of given secrets
GenOf(n, out, xs) == With(Gen(out), First(n, xs))
RECURSIVE Sum(_)
Sum(xs) == IF xs = << >> THEN "0" ELSE SAdd(Head(xs), Sum(Tail(xs)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
\* secrets of n parties, by name; zero: all zero; nil: they cancel out
Secrets(n, kind) == CASE kind = "zero" -> [p \in 1..n |-> "0"]
                      [] kind = "max" -> [p \in 1..n |-> M1]
                      [] kind = "one" -> [p \in 1..n |-> IF p = 1 THEN "1" ELSE "0"]
                      [] kind = "some" -> [p \in 1..n |-> IF p = n THEN "0" ELSE At(kind \o Str(p))]
                      [] kind = "nil" -> [p \in 1..n |-> IF p = n THEN SNeg(Sum([q \in 1..(n-1) |-> At(kind \o Str(q))])) ELSE At(kind \o Str(p))]
                      [] kind = "small" -> [p \in 1..n |-> ZInt(p * 3)]
                      [] kind = "same" -> [p \in 1..n |-> At(kind)]
                      [] OTHER -> [p \in 1..n |-> At(kind \o Str(p))]
Kinds == <<"zero", "max", "one", "some", "nil", "small", "same", "any">>
\* who is silent, as rules of the round of a revelation: towards p only those of Q are heard
Only(p, Q, n) == LET gone == SetToSeq((0..(n-1)) \ (Q \cup {p})) IN [k \in DOMAIN gone |-> Drop(1, gone[k], p)]
VARIABLE nothing
NoStep == nothing = 0 /\ [][FALSE]_nothing
=============================================================================
